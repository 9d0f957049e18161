"""Generators shared by the laws (all Hypothesis strategies of plain literals)."""
import ast
import functools
import glob
import os
import warnings

from hypothesis import strategies as st

from pbt import core


# ---------------------------------------------------------------------------
# A dictionary of integers harvested from the current source tree (as a fuzzer's
# dictionary): thresholds, table sizes and magic values in the code become inputs.
# ---------------------------------------------------------------------------

def _fold(node):
    if isinstance(node, ast.Constant) and isinstance(node.value, (int, float)) and not isinstance(node.value, bool):
        return node.value
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
        v = _fold(node.operand)
        return None if v is None else -v
    if isinstance(node, ast.BinOp):
        a, b = _fold(node.left), _fold(node.right)
        if a is None or b is None:
            return None
        try:
            if isinstance(node.op, ast.Pow):
                return a**b if abs(b) <= 400 and abs(a) <= 10**6 else None
            if isinstance(node.op, ast.LShift):
                return a << b if 0 <= b <= 400 else None
            if isinstance(node.op, ast.Mult):
                return a*b
            if isinstance(node.op, ast.Add):
                return a + b
            if isinstance(node.op, ast.Sub):
                return a - b
            if isinstance(node.op, ast.FloorDiv):
                return a//b
        except Exception:
            return None
    return None


@functools.lru_cache(None)
def source_constants(sub=""):
    vals = set()
    for path in sorted(glob.glob(os.path.join(core.REPO, "rosemary", sub, "**", "*.py"), recursive=True)):
        if "/tests/" in path or os.path.basename(path).startswith("test_"):
            continue
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                tree = ast.parse(open(path, encoding="utf-8").read())
        except SyntaxError:
            continue
        todo = [tree]
        while todo:
            node = todo.pop()
            if isinstance(node, (ast.List, ast.Tuple)) and len(node.elts) > 200:
                node.elts[2:-2] = []        # of a data table only the ends are of interest
            todo.extend(ast.iter_child_nodes(node))
            v = _fold(node) if isinstance(node, (ast.Constant, ast.BinOp)) else None
            if v is not None and abs(v) < 1 << 220 and v == v:
                vals.add(abs(int(v)))
    return sorted(v for v in vals if v >= 2)


SMALL_PRIMES = [p for p in range(2, 2000) if all(p % q for q in range(2, int(p**0.5) + 1))]


@functools.lru_cache(None)
def big_primes():
    """A fixed ladder of primes of every size from 11 to 64 bits."""
    import sympy
    out = []
    for b in range(11, 65):
        for k in (0, 1, 2, 5):
            out.append(sympy.nextprime((1 << b) + k*((1 << b)//7)))
        out.append(sympy.prevprime(1 << b))
    return sorted(set(out))


def fold(lo, hi, v):
    if lo <= v <= hi:
        return v
    return lo + (v - lo) % (hi - lo + 1)


@functools.lru_cache(None)
def dict_ints(lo, hi, sub=""):
    base = source_constants(sub)
    cand = set()
    for c in base:
        for v in (c, c*c, c*c*c, c//2, 2*c, 3*c):
            for d in (-2, -1, 0, 1, 2):
                if lo <= v + d <= hi:
                    cand.add(v + d)
                if lo <= -(v + d) <= hi:
                    cand.add(-(v + d))
        p = c*(c + 1)
        for d in (-1, 0, 1):
            if lo <= p + d <= hi:
                cand.add(p + d)
    return sorted(cand, key=lambda v: (abs(v), v < 0))


@functools.lru_cache(None)
def ints(lo, hi, sub="", structured=True):
    """Integers in [lo, hi] with many sizes and shapes; shrinks towards small values."""
    parts = []
    small_hi = min(hi, max(lo, 0) + 60) if hi >= 0 else hi
    small_lo = max(lo, -60)
    if small_lo <= small_hi:
        parts.append(st.integers(small_lo, small_hi))
    parts.append(st.integers(lo, hi))
    top = max(abs(lo), abs(hi)).bit_length()

    def bits_value(t):
        b, v, neg = t
        x = (1 << b) + v % (1 << b)
        return fold(lo, hi, -x if neg else x)
    neg = st.booleans() if lo < 0 else st.just(False)
    parts.append(st.tuples(st.integers(0, max(0, top - 1)), st.integers(0, 1 << max(top, 1)), neg).map(bits_value))
    d = dict_ints(lo, hi, sub)
    if d:
        parts.append(st.sampled_from(d))
    if structured:
        def power(t):
            b, e, off, mul, neg = t
            while e > 1 and b**e*mul > max(abs(lo), abs(hi)):
                e -= 1
            x = mul*b**e + off
            return fold(lo, hi, -x if neg else x)
        parts.append(st.tuples(st.one_of(st.integers(2, 20), st.integers(2, 1 << max(2, top//2))),
                               st.integers(1, max(1, top)), st.integers(-2, 2), st.sampled_from([1, 1, 1, 2, 3, 6]), neg).map(power))

        def product(t):
            ps, neg = t
            x = 1
            for (p, e) in ps:
                for _ in range(e):
                    if x*p > max(abs(lo), abs(hi)):
                        break
                    x *= p
            return fold(lo, hi, -x if neg else x)
        prime = st.one_of(st.sampled_from(SMALL_PRIMES[:12]), st.sampled_from(SMALL_PRIMES))
        parts.append(st.tuples(st.lists(st.tuples(prime, st.integers(1, 4)), min_size=1, max_size=6), neg).map(product))
    return st.one_of(*parts)


def factored(max_value=10**14, max_primes=5, primes=None, big=True):
    """Strategy of factorizations [(p, e), ...] sorted by p, product <= max_value."""
    pools = [st.sampled_from(SMALL_PRIMES[:8]), st.sampled_from(SMALL_PRIMES)]
    if big:
        bp = [p for p in big_primes() if p <= max_value]
        if bp:
            pools.append(st.sampled_from(bp))
    prime = primes if primes is not None else st.one_of(*pools)

    def build(pairs):
        d = {}
        n = 1
        for (p, e) in pairs:
            for _ in range(e):
                if n*p > max_value:
                    break
                n *= p
                d[p] = d.get(p, 0) + 1
        return sorted(d.items())
    return st.lists(st.tuples(prime, st.one_of(st.integers(1, 3), st.integers(1, 9))), min_size=0, max_size=max_primes).map(build)


def product(fac):
    n = 1
    for (p, e) in fac:
        n *= p**e
    return n


# ---------------------------------------------------------------------------
# Graphs: the literal form is (vertices, [(u, v, w), ...]), u != v, no edge twice.
# ---------------------------------------------------------------------------

def mk_graph(lit):
    from rosemary.graphs.graphs import Graph
    vertices, edges = lit
    g = Graph()
    g.add_vertices(vertices)
    for e in edges:
        g.add_edge(*e)
    return g


def _labels(kind, n):
    if kind == "int":
        return list(range(n))
    if kind == "str":
        return ["abcdefghijklmnopqrstuvwxyz"[i % 26] + ("" if i < 26 else str(i)) for i in range(n)]
    if kind == "gap":
        return [7*i*i - 3*i + 2 for i in range(n)]
    if kind == "neg":
        return [3*i - n for i in range(n)]
    if kind == "tup":
        return [(i % 3, i) for i in range(n)]
    raise ValueError(kind)


@st.composite
def graphs(draw, min_n=1, max_n=9, weights=None, connected=False, labels=("int", "int", "str", "gap"), shuffle=True):
    n = draw(st.integers(min_n, max_n))
    kind = draw(st.sampled_from(list(labels)))
    names = _labels(kind, n)
    pairs = [(i, j) for j in range(n) for i in range(j)]
    shape = draw(st.sampled_from(["gnp", "gnp", "gnp", "sparse", "dense", "complement", "special"]))
    if shape == "special":
        sp = draw(st.sampled_from(["empty", "complete", "path", "cycle", "star", "bipartite", "multipartite", "twok", "wheel"]))
        if sp == "empty":
            chosen = []
        elif sp == "complete":
            chosen = pairs
        elif sp == "path":
            chosen = [(i, i + 1) for i in range(n - 1)]
        elif sp == "cycle":
            chosen = [(i, i + 1) for i in range(n - 1)] + ([(0, n - 1)] if n > 2 else [])
        elif sp == "star":
            chosen = [(0, i) for i in range(1, n)]
        elif sp == "wheel":
            chosen = [(0, i) for i in range(1, n)] + [(i, i + 1) for i in range(1, n - 1)] + ([(1, n - 1)] if n > 3 else [])
        elif sp == "bipartite":
            k = draw(st.integers(0, n))
            chosen = [(i, j) for (i, j) in pairs if (i < k) != (j < k)]
        elif sp == "multipartite":
            k = draw(st.integers(1, 4))
            chosen = [(i, j) for (i, j) in pairs if i % k != j % k]
        else:
            k = draw(st.integers(0, n))
            chosen = [(i, j) for (i, j) in pairs if (i < k) == (j < k)]
        if pairs:
            flip = draw(st.lists(st.sampled_from(pairs), max_size=2, unique=True))
            chosen = sorted(set(chosen) ^ set(flip))
    elif not pairs:
        chosen = []
    elif shape == "sparse":
        chosen = draw(st.lists(st.sampled_from(pairs), max_size=n + 1, unique=True))
    else:
        bits = draw(st.lists(st.booleans(), min_size=len(pairs), max_size=len(pairs)))
        if shape == "dense":
            bits2 = draw(st.lists(st.booleans(), min_size=len(pairs), max_size=len(pairs)))
            bits = [a or b for (a, b) in zip(bits, bits2)]
        elif shape == "complement":
            bits2 = draw(st.lists(st.booleans(), min_size=len(pairs), max_size=len(pairs)))
            bits = [a and b for (a, b) in zip(bits, bits2)]
        chosen = [p for (p, b) in zip(pairs, bits) if b]
    chosen = list(chosen)
    if connected and n > 1:
        have = set(chosen)
        for j in range(1, n):
            i = draw(st.integers(0, j - 1))
            have.add((i, j))
        chosen = sorted(have)
    perm = list(range(n))
    if shuffle:
        perm = draw(st.permutations(perm))
        chosen = draw(st.permutations(chosen))
    w = weights if weights is not None else st.just(1)
    edges = []
    for (i, j) in chosen:
        if shuffle and draw(st.booleans()):
            i, j = j, i
        edges.append((names[perm[i]], names[perm[j]], draw(w)))
    order = [names[i] for i in (draw(st.permutations(range(n))) if shuffle else range(n))]
    return (order, edges)


def edge_set(lit):
    return {frozenset((u, v)) for (u, v, w) in lit[1]}


def adjacency(lit):
    adj = {u: {} for u in lit[0]}
    for (u, v, w) in lit[1]:
        adj[u][v] = w
        adj[v][u] = w
    return adj


def components(lit):
    adj = adjacency(lit)
    seen = set()
    out = []
    for s in lit[0]:
        if s in seen:
            continue
        comp = {s}
        todo = [s]
        while todo:
            u = todo.pop()
            for v in adj[u]:
                if v not in comp:
                    comp.add(v)
                    todo.append(v)
        seen |= comp
        out.append(comp)
    return out


@functools.lru_cache(None)
def all_graphs_cache(n):
    pairs = [(i, j) for j in range(n) for i in range(j)]
    return pairs


def all_graphs(max_n, min_n=1):
    """Every labelled graph on 1..max_n vertices, as literals with weight 1."""
    for n in range(min_n, max_n + 1):
        pairs = all_graphs_cache(n)
        for mask in range(1 << len(pairs)):
            yield (list(range(n)), [(i, j, 1) for (k, (i, j)) in enumerate(pairs) if mask >> k & 1])


# ---------------------------------------------------------------------------
# Larger graphs, from a seed and a shape (the literal of the case stays short)
# ---------------------------------------------------------------------------

SHAPES = ("gnp", "gnp", "tree", "caterpillar", "grid", "blocks", "sparse", "dense", "cycle", "star", "bipartite")


SPARSE = ("sparse", "tree", "caterpillar", "grid", "blocks", "cycle", "star")


def seeded_graphs(lo, hi, weights=(1, 1, 3, 40), shapes=None):
    return st.tuples(st.integers(0, 10**9), st.integers(lo, hi), st.sampled_from(shapes or SHAPES), st.sampled_from(weights))


def seeded_graph(seed, n, shape, top, connected=False):
    """A graph on 0 .. n-1 with weights in 1 .. top, described by its arguments."""
    import random
    r = random.Random(seed)
    pairs = set()
    if shape in ("gnp", "sparse", "dense"):
        p = {"gnp": r.choice([0.1, 0.2, 0.4, 0.6]), "sparse": 1.2/n, "dense": 0.85}[shape]
        pairs = {(i, j) for j in range(n) for i in range(j) if r.random() < p}
    elif shape == "tree":
        pairs = {(r.randrange(max(0, j - r.choice([2, 5, n])), j), j) for j in range(1, n)}
    elif shape == "caterpillar":
        # a spine or a centre with paths hanging from it
        k = max(1, n//r.choice([3, 4, 6]))
        spine = r.random() < 0.5
        for j in range(1, n):
            if j < k:
                pairs.add((j - 1 if spine else 0, j))
            else:
                pairs.add((j - k, j))
    elif shape == "grid":
        k = max(2, int(n**0.5))
        pairs = {(j - 1, j) for j in range(1, n) if j % k} | {(j - k, j) for j in range(k, n)}
        pairs = {e for e in pairs if r.random() < 0.95}
    elif shape == "blocks":
        # dense blocks, each hanging from the one before by an edge or not at all
        b = r.choice([3, 4, 6])
        for j in range(n):
            for i in range(j):
                if i//b == j//b and r.random() < 0.8:
                    pairs.add((i, j))
            if j % b == 0 and j and r.random() < 0.8:
                pairs.add((j - 1, j))
    elif shape == "cycle":
        pairs = {(j - 1, j) for j in range(1, n)} | {(0, n - 1)}
        for _ in range(r.randrange(4)):
            i, j = sorted(r.sample(range(n), 2))
            pairs.add((i, j))
    elif shape == "star":
        pairs = {(0, j) for j in range(1, n)}
        for _ in range(r.randrange(4)):
            i, j = sorted(r.sample(range(n), 2))
            pairs.add((i, j))
    else:
        k = r.randrange(1, n)
        pairs = {(i, j) for j in range(n) for i in range(j) if (i < k) != (j < k) and r.random() < 0.5}
    if connected:
        label = list(range(n))
        for (i, j) in sorted(pairs):
            a, b = label[i], label[j]
            if a != b:
                label = [a if x == b else x for x in label]
        for j in range(1, n):
            if label[j] != label[0]:
                i = r.choice([x for x in range(n) if label[x] == label[0]])
                pairs.add((min(i, j), max(i, j)))
                b = label[j]
                label = [label[0] if x == b else x for x in label]
    perm = list(range(n))
    r.shuffle(perm)
    edges = [(perm[i], perm[j], r.randint(1, top)) for (i, j) in sorted(pairs)]
    r.shuffle(edges)
    return (list(range(n)), edges)
