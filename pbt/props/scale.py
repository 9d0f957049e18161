"""Laws at a scale that small cases do not reach: deep graphs, heaps of thousands of values, operands of thousands of bits, long lists.
What only breaks there (a recursion that runs out of stack, a fixed width, an index or a table that is too small) is seen by these."""
import heapq
import itertools
import math
import random

from hypothesis import strategies as st

from pbt.core import Each, call, call_list, ensure, law, same
from pbt.gens import mk_graph

from rosemary.algebra.polynomials import algorithms as PA
from rosemary.algebra.polynomials import polynomials as PP
from rosemary.combinatorics.generation import combinations as CO
from rosemary.combinatorics.generation import permutations as PE
from rosemary.combinatorics.generation import tuples as TU
from rosemary.combinatorics.optimization import knapsack as KN
from rosemary.data_structures.heaps import LeftistHeap, PairingHeap
from rosemary.data_structures.unionfind import NamedUnionFind, UnionFind
from rosemary.graphs.algorithms import connectivity as CN
from rosemary.graphs.algorithms import paths as P
from rosemary.graphs.algorithms import spanning_trees as S
from rosemary.graphs.algorithms import steiner_trees as ST
from rosemary.graphs.algorithms import traversal as TR
from rosemary.number_theory import core as T

INF = float("inf")


# ---------------------------------------------------------------------------
# Deep graphs
# ---------------------------------------------------------------------------

def deep_graph(shape, n, seed):
    """Literal graph on n vertices with long paths; labels, edge order and weights shuffled by the seed."""
    r = random.Random("{} {} {}".format(shape, n, seed))
    pairs = []
    if shape == "path":
        pairs = [(i, i + 1) for i in range(n - 1)]
    elif shape == "cycle":
        pairs = [(i, (i + 1) % n) for i in range(n)]
    elif shape == "two":
        pairs = [(i, i + 1) for i in range(n - 1) if i != n//3]
    elif shape == "comb":
        pairs = [(i, i + 2) for i in range(0, n - 2, 2)] + [(i, i + 1) for i in range(0, n - 1, 2)]
    elif shape == "ladder":
        pairs = [(i, i + 2) for i in range(n - 2)] + [(i, i + 1) for i in range(0, n - 1, 2)]
    elif shape == "star":
        pairs = [(0, i) for i in range(1, n)]
    elif shape == "binary":
        pairs = [((i - 1)//2, i) for i in range(1, n)]
    elif shape == "chords":
        pairs = sorted({(i, i + 1) for i in range(n - 1)} | {tuple(sorted(r.sample(range(n), 2))) for _ in range(n//4)})
    names = list(range(n))
    if seed % 3:
        r.shuffle(names)
    top = r.choice([1, 9, 10**6])
    edges = [(names[i], names[j], r.randint(1, top)) for (i, j) in pairs]
    edges = [(v, u, w) if r.random() < 0.5 else (u, v, w) for (u, v, w) in edges]
    if seed % 2:
        r.shuffle(edges)
    vertices = list(names)
    r.shuffle(vertices)
    return vertices, edges, names[0], names[n//2]


def neighbors_of(vertices, edges):
    adj = {u: {} for u in vertices}
    for (u, v, w) in edges:
        adj[u][v] = w
        adj[v][u] = w
    return adj


def levels_from(adj, s):
    dist = {s: 0}
    layer = [s]
    while layer:
        new = []
        for u in layer:
            for v in adj[u]:
                if v not in dist:
                    dist[v] = dist[u] + 1
                    new.append(v)
        layer = new
    return dist


def distances_from(adj, s):
    dist = {}
    heap = [(0, s)]
    while heap:
        (d, u) = heapq.heappop(heap)
        if u in dist:
            continue
        dist[u] = d
        for (v, w) in adj[u].items():
            if v not in dist:
                heapq.heappush(heap, (d + w, v))
    return dist


SHAPES = ["path", "cycle", "two", "comb", "ladder", "star", "binary", "chords"]


def deep_cases(sizes, thorough):
    def cases(tier):
        seeds = range(2) if tier == "quick" else range(thorough)
        return [(shape, n + 7*seed, seed) for seed in seeds for shape in SHAPES for n in sizes]
    return Each(cases, whole=False)


@law("C41", deep_cases((700, 4100), 12), shards=2, cpu=60)
def traversal_deep(case):
    """a component of depth of at least 500"""
    vertices, edges, a, b = deep_graph(*case)
    g = call(mk_graph, (vertices, edges))
    adj = neighbors_of(vertices, edges)
    deep = 0
    for s in (a, b):
        dist = levels_from(adj, s)
        deep = max(deep, max(dist.values()))
        order = call_list(TR.breadth_first_search, g, s, limit=len(vertices))
        same(sorted(order), sorted(dist), "breadth_first_search of", case, "visits")
        same([dist[v] for v in order], sorted(dist.values()), "levels in the breadth first order")
        order = call_list(TR.depth_first_search, g, s, limit=len(vertices))
        same(sorted(order), sorted(dist), "depth_first_search of", case, "visits")
        for d in (3, max(dist.values())//2):
            order = call_list(TR.breadth_first_search, g, s, d, limit=len(vertices))
            same(sorted(order), sorted(v for v in dist if dist[v] <= d), "breadth_first_search of", case, "to depth", d, "visits")
            order = call_list(TR.depth_first_search, g, s, d, limit=len(vertices))
            ensure(len(set(order)) == len(order) and all(dist[v] <= d for v in order), "depth_first_search of", case, "to depth", d)
        for fn in (TR.breadth_first_search_tree, TR.depth_first_search_tree):
            prev = call(fn, g, s)
            same(sorted(prev), sorted(dist), fn.__name__, "reaches")
            same(prev[s], None, fn.__name__, "predecessor of the root")
            order = {}
            for v in dist:          # every vertex leads to the root: vertices are marked along each walk once
                walk = []
                u = v
                while u is not None and u not in order:
                    order[u] = len(walk)
                    walk.append(u)
                    ensure(prev[u] is None or prev[u] in adj[u], fn.__name__, "predecessor of", u, "is", prev[u])
                    u = prev[u]
                    ensure(u is None or u not in walk[-3:], fn.__name__, "predecessors run in a cycle")
            if fn is TR.breadth_first_search_tree:
                same([v for v in dist if v != s and dist[prev[v]] != dist[v] - 1], [], "vertices whose breadth first predecessor is not one level up")
        same(sorted(call(CN.connected_component, g, s)), sorted(dist), "connected_component")
    comps = call(CN.connected_components, g)
    same(sorted(v for c in comps for v in c), sorted(vertices), "vertices of the components")
    same(len(comps), 2 if case[0] == "two" else 1, "number of components")
    same(call(CN.is_connected, g), case[0] != "two", "is_connected")
    return deep >= 500


@law("C37", deep_cases((350, 1300), 10), shards=4, cpu=90)
def paths_deep(case):
    """a shortest path of at least 300 edges"""
    vertices, edges, a, b = deep_graph(*case)
    g = call(mk_graph, (vertices, edges))
    adj = neighbors_of(vertices, edges)
    steps = max(levels_from(adj, a).values())
    for s in (a, b):
        want = distances_from(adj, s)
        full = {v: want.get(v, INF) for v in vertices}
        fns = [P.dijkstra, P.dijkstra_pairing_heap, P.bellman_ford] + ([P.dijkstra_buckets] if max(want.values()) < 10**5 else [])
        for fn in fns:
            dist, prev = call(fn, g, s)
            same(dist, full, fn.__name__, "distances")
            for v in want:
                if v == s:
                    same(prev.get(v), None, fn.__name__, "predecessor of the source")
                else:
                    p = prev.get(v)
                    ensure(p in adj[v] and want[p] + adj[v][p] == want[v], fn.__name__, "predecessor of", v, "is", p)
        far = sorted(want, key=lambda v: want[v])
        for t in (far[-1], far[len(far)//2], far[0]):
            d, path = call(P.dijkstra_bidirectional, g, s, t)
            same(d, want[t], "dijkstra_bidirectional distance", (s, t))
            ensure(path[0] == s and path[-1] == t, "dijkstra_bidirectional path")
            same(sum(adj[u].get(v, INF) for (u, v) in zip(path, path[1:])), d, "dijkstra_bidirectional length of the path")
    seen = {}
    for (v, d, path) in call_list(P.dijkstra_iterator, g, b, limit=len(vertices)):
        ensure(v not in seen and path[0] == b and path[-1] == v, "dijkstra_iterator path to", v)
        seen[v] = d
    same(seen, want, "dijkstra_iterator distances")
    return steps >= 300


@law("C38", deep_cases((500, 1500), 10), shards=4, cpu=90)
def forests_deep(case):
    """always"""
    vertices, edges, a, b = deep_graph(*case)
    g = call(mk_graph, (vertices, edges))
    adj = neighbors_of(vertices, edges)

    def reference(members):
        top = {v: v for v in members}

        def find(v):
            while top[v] != v:
                top[v] = top[top[v]]
                v = top[v]
            return v
        total = 0
        for (w, u, v) in sorted((w, u, v) for (u, v, w) in edges if u in members):
            x, y = find(u), find(v)
            if x != y:
                top[x] = y
                total += w
        return total

    whole = reference(set(vertices))
    k = len(vertices) - (2 if case[0] == "two" else 1)
    for fn in (S.kruskal, S.cheriton_tarjan):
        w, T_ = call(fn, g)
        same((w, len(set(T_))), (whole, k), fn.__name__, "weight and number of edges")
        same(sum(adj[u].get(v, INF) for (u, v) in T_), w, fn.__name__, "weight of the edges")
        reach = neighbors_of(vertices, [(u, v, 1) for (u, v) in T_])
        same(sorted(levels_from(reach, a)), sorted(levels_from(adj, a)), fn.__name__, "vertices reached in the forest")
    part = set(levels_from(adj, a))
    w, T_ = call(S.prim, g, a)
    same((w, len(set(T_))), (reference(part), len(part) - 1), "prim weight and number of edges")
    reach = neighbors_of(vertices, [(u, v, 1) for (u, v) in T_])
    same(set(levels_from(reach, a)), part, "vertices reached in the tree of prim")
    return True


@law("C40", deep_cases((60, 240), 6), shards=2, cpu=90)
def steiner_deep(case):
    """trees: the answer is the union of the paths between the terminals; non-trivial: it has at least 50 edges"""
    shape, n, seed = case
    if shape in ("cycle", "two", "ladder", "chords"):
        shape = ("path", "comb", "binary", "star")[seed % 4]
    vertices, edges, a, b = deep_graph(shape, n, seed)
    g = call(mk_graph, (vertices, edges))
    adj = neighbors_of(vertices, edges)
    r = random.Random("{}".format(case))
    terms = r.sample(vertices, r.choice([2, 3, 5]))
    keep = {u: dict(d) for (u, d) in adj.items()}
    work = [u for u in keep if len(keep[u]) == 1 and u not in terms]
    while work:
        u = work.pop()
        if len(keep[u]) != 1:
            continue
        (v,) = keep.pop(u)
        del keep[v][u]
        if len(keep[v]) == 1 and v not in terms:
            work.append(v)
    want = sorted((u, v) for u in keep for v in keep[u] if u < v)
    weight = sum(keep[u][v] for (u, v) in want)
    for fn in (ST.distance_network_heuristic, ST.minimum_cost_paths_heuristic):
        w, T_ = call(fn, g, list(terms))
        same((w, sorted((min(e), max(e)) for e in T_)), (weight, want), fn.__name__)
    return len(want) >= 50


# ---------------------------------------------------------------------------
# Large containers
# ---------------------------------------------------------------------------

ORDERS = ["up", "down", "equal", "random", "saw", "organ"]


def values_in_order(order, n, seed):
    r = random.Random("{} {} {}".format(order, n, seed))
    if order == "up":
        return list(range(n))
    if order == "down":
        return list(range(n, 0, -1))
    if order == "equal":
        return [7]*n
    if order == "saw":
        return [i % 17 for i in range(n)]
    if order == "organ":
        return [min(i, n - i) for i in range(n)]
    return [r.randrange(n) for _ in range(n)]


@law("C32", Each(lambda tier: [(a, b, n, s) for s in range(1 if tier == "quick" else 4) for n in ((1700, 4000) if tier == "quick" else (1700, 4000, 12000))
                               for a in ORDERS for b in ORDERS], whole=False), shards=2, cpu=60)
def leftist_thousands(case):
    """heaps of thousands of values: built at once, by insertion and by merging, drained alternately; non-trivial: always"""
    first, second, n, seed = case
    A = values_in_order(first, n, seed)
    B = values_in_order(second, n, seed + 1)
    H = call(LeftistHeap, list(A))
    G = call(LeftistHeap, [])
    for x in B:
        call(G.insert, x)
    model = sorted(B)
    for i in range(n//3):
        same(call(G.delete_min), model[i], "delete_min of the heap built by insertions", first, second, n)
    call(H.merge, G)
    rest = A + model[n//3:]
    for x in B[:n//4]:
        call(H.insert, x)
        rest.append(x)
    same(len(H), len(rest), "size")
    got = [call(H.delete_min) for _ in range(len(rest))]
    ensure(got == sorted(rest), "values drained from", case, "are out of order")
    same(call(H.delete_min), None, "delete_min of the drained heap")
    one = call(LeftistHeap, [])
    for x in A[:1500]:
        call(one.merge, call(LeftistHeap, [x]))
    ensure(call(list, one) == sorted(A[:1500]), "values drained after merging single heaps", case)
    return True


@law("C32", Each(lambda tier: [(a, n, s) for s in range(2 if tier == "quick" else 8) for n in (1500, 4000) for a in ORDERS], whole=False), cpu=60)
def pairing_thousands(case):
    """heaps of thousands of keys with hundreds of decreased keys; non-trivial: always"""
    order, n, seed = case
    r = random.Random("{}".format(case))
    keys = values_in_order(order, n, seed)
    H = call(PairingHeap)
    call(H.insert_values, [(k, i) for (i, k) in enumerate(keys)])
    model = dict(enumerate(keys))
    fresh = n
    out = []
    last = None
    while model:
        node = call(H.delete_min)
        ensure(node is not None and model.get(node.value) == node.key, "delete_min of", case, "gives", node and (node.key, node.value))
        ensure(last is None or node.key >= last, "delete_min of", case, "gives the key", node.key, "after", last)
        last = node.key
        del model[node.value]
        out.append(node.value)
        if len(out) % 3 == 0 and fresh < 2*n:
            k = last + r.randrange(20)
            call(H.insert, k, fresh)
            model[fresh] = k
            fresh += 1
        if r.random() < 0.4:
            v = r.choice(range(n))
            if v in model:
                k = max(last, model[v] - r.randrange(1 + n//10))
                call(H.decrease_key, v, k)
                model[v] = k
    same(call(H.delete_min), None, "delete_min of an empty heap")
    return True


@law("C33", Each(lambda tier: [(shape, n) for shape in ("chain", "reverse", "pairs", "star", "random") for n in ((3000,) if tier == "quick" else (3000, 20000))], whole=False), cpu=90)
def unions_of_thousands(case):
    """thousands of unions in adversarial orders; non-trivial: always"""
    shape, n = case
    r = random.Random("{}".format(case))
    if shape == "chain":
        pairs = [(i, i + 1) for i in range(n - 1)]
    elif shape == "reverse":
        pairs = [(i + 1, i) for i in range(n - 2, -1, -1)]
    elif shape == "pairs":
        pairs = [(i, i + d) for d in (1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024) for i in range(0, n - d, 2*d)]
    elif shape == "star":
        pairs = [(0, i) if i % 2 else (i, 0) for i in range(1, n)]
    else:
        pairs = [tuple(r.sample(range(n), 2)) for _ in range(n)]
    U = call(UnionFind, list(range(n)))
    N = call(NamedUnionFind, list(range(n)))
    label = list(range(n))
    members = {i: [i] for i in range(n)}
    for (i, j) in pairs:
        x, y = call(U.find, i), call(U.find, j)
        a, b = label[i], label[j]
        same(x == y, a == b, "find of", (i, j), "agrees with the partition")
        if a != b:
            call(U.union, x, y)
            u, v = call(N.find, i), call(N.find, j)
            call(N.union, u, v, u)
            if len(members[a]) < len(members[b]):
                a, b = b, a
            for m in members[b]:
                label[m] = a
            members[a] += members.pop(b)
    for finder in (U, N):
        names = {}
        for i in range(n):
            names.setdefault(label[i], set()).add(call(finder.find, i))
        ensure(all(len(s) == 1 for s in names.values()), "a set has more than one name", case)
        same(len(set().union(*names.values())), len(members), "number of names", case)
    return True


# ---------------------------------------------------------------------------
# Large numbers and long lists
# ---------------------------------------------------------------------------

def fibonacci_pair(k):
    a, b = 0, 1
    for _ in range(k):
        a, b = b, a + b
    return a, b


BITS = st.sampled_from([500, 1000, 1500, 2100, 3000, 5000])


@st.composite
def thousands_of_bits(draw):
    """(x, y): consecutive Fibonacci numbers (the longest Euclidean algorithm), powers, random numbers with a common factor"""
    kind = draw(st.sampled_from(["fibonacci", "fibonacci", "random", "powers", "near"]))
    bits = draw(BITS)
    g = draw(st.integers(1, 10**9))
    if kind == "fibonacci":
        x, y = fibonacci_pair(bits)
    else:
        r = random.Random(draw(st.integers(0, 10**9)))
        x, y = r.getrandbits(bits), r.getrandbits(draw(BITS))
        if kind == "powers":
            x, y = 2**bits, 3**(bits//3)*2**r.randrange(bits)
        elif kind == "near":
            y = x + r.randrange(1, 1000)
    sx, sy = draw(st.sampled_from([(1, 1), (1, 1), (-1, 1), (1, -1), (-1, -1)]))
    if draw(st.booleans()):
        x, y = y, x
    return (sx*g*x, sy*g*y)


@law("C01", thousands_of_bits(), quick=150)
def gcd_of_thousands_of_bits(case):
    """numbers of up to 5000 bits; non-trivial: both nonzero"""
    x, y = case
    g = math.gcd(x, y)
    same(call(T.gcd, x, y), g, "gcd")
    same(call(T.lcm, x, y), math.lcm(x, y), "lcm")
    a, b, d = call(T.ext_gcd, x, y)
    ensure(d == g and a*x + b*y == g, "ext_gcd of numbers of", x.bit_length(), y.bit_length(), "bits")
    return bool(x and y)


@law("C01", st.tuples(st.integers(0, 10**9), st.integers(500, 3000), st.sampled_from([2, 6, 720720])), quick=30)
def gcd_of_long_lists(case):
    """lists of up to 3000 integers; non-trivial: always"""
    seed, n, k = case
    r = random.Random(seed)
    L = [k*r.randrange(-50, 50) for _ in range(n)]
    same(call(T.gcd_list, L), math.gcd(*L), "gcd_list of a long list", case)
    M = [x or 1 for x in L]
    same(call(T.lcm_list, M), math.lcm(*M), "lcm_list of a long list", case)
    return True


@law("C02", thousands_of_bits(), quick=100)
def modular_arithmetic_with_thousands_of_bits(case):
    """power_mod, inverse_mod and chinese with numbers of up to 5000 bits; non-trivial: coprime"""
    a, m = abs(case[0]) + 1, abs(case[1]) + 2
    k = (a*7919 + m) >> 3
    if m.bit_length() < 1600:
        same(call(T.power_mod, a, k, m), pow(a, k, m), "power_mod of thousands of bits")
    same(call(T.power_mod, a, k, 1000003), pow(a, k, 1000003), "power_mod with an exponent of thousands of bits")
    ok = math.gcd(a, m) == 1
    if ok:
        same(call(T.inverse_mod, a, m), pow(a, -1, m), "inverse_mod of thousands of bits")
        x = call(T.chinese, [(k, a), (k + 1, m)]) if a > 1 else None
        ensure(x is None or ((x - k) % a == 0 and (x - k - 1) % m == 0), "chinese with moduli of thousands of bits")
    return ok


@law("C02", st.tuples(st.integers(0, 10**9), st.integers(40, 250)), quick=30)
def many_congruences(case):
    """up to 250 prime moduli, in both ways of solving; non-trivial: always"""
    from pbt.gens import SMALL_PRIMES
    seed, k = case
    r = random.Random(seed)
    moduli = r.sample(SMALL_PRIMES, min(k, len(SMALL_PRIMES)))
    x = r.randrange(math.prod(moduli))
    system = [(x % m + m*r.randrange(-3, 4), m) for m in moduli]
    same(call(T.chinese, list(system)), x, "chinese with", k, "moduli")
    data = call(T.crt_preconditioning_data, list(moduli))
    same(call(T.chinese_preconditioned, list(system), data), x, "chinese_preconditioned with", k, "moduli")
    return True


@law("C03", st.tuples(st.sampled_from([2, 3, 5, 7, 10, 11, 64, 1000, 2**31 - 1, 10**30]), st.integers(300, 4000), st.sampled_from([-1, 0, 1, 17])), quick=120)
def roots_and_logs_of_huge_powers(case):
    """next to b^e with up to 40000 bits; non-trivial: always"""
    b, e, d = case
    while e*b.bit_length() > 40000:
        e = e//2 + 1
    p = b**e
    n = p + d
    k = e if d >= 0 else e - 1
    same(call(T.integer_log, b, n), k if n < p*b else k + 1, "integer_log of a number of", n.bit_length(), "bits")
    same(call(T.integer_sqrt, n), math.isqrt(n), "integer_sqrt")
    r = call(T.integer_nth_root, e, n)
    same(r, b if d >= 0 else b - 1, "integer_nth_root of index", e)
    r = call(T.integer_nth_root, 3, n)
    ensure(r**3 <= n < (r + 1)**3, "integer_nth_root of index 3")
    same(call(T.bit_count, n), bin(n).count("1"), "bit_count")
    same(call(T.valuation, b, p*(b*d*d + 1)), e, "valuation of exponent", e)
    return True


@law("C04", thousands_of_bits(), quick=100)
def jacobi_of_thousands_of_bits(case):
    """quadratic reciprocity, multiplicativity and periodicity for numbers of up to 5000 bits; non-trivial: coprime"""
    a, m = case[0], abs(case[1]) | 1
    j = call(T.jacobi_symbol, a, m)
    ensure(j in (-1, 0, 1) and (j == 0) == (math.gcd(a, m) > 1), "jacobi_symbol is", j)
    same(call(T.jacobi_symbol, a % m + 5*m, m), j, "jacobi_symbol is periodic")
    same(call(T.jacobi_symbol, 2*a, m), j*(1 if m % 8 in (1, 7) or m == 1 else -1), "jacobi_symbol of twice the number")
    same(call(T.jacobi_symbol, -a, m), j*(1 if m % 4 == 1 else -1), "jacobi_symbol of the negative")
    b = abs(a)
    if b % 2 and j:
        want = call(T.jacobi_symbol, m, b)*(-1 if b % 4 == 3 and m % 4 == 3 else 1)
        same(call(T.jacobi_symbol, b, m), want, "reciprocity")
    return j != 0


@law("C21", st.tuples(st.integers(0, 10**9), st.integers(200, 1400), st.integers(200, 1400), st.sampled_from([1, 10**6, 10**40])), quick=6, cpu=90)
def long_products(case):
    """operands of up to 1400 coefficients, against the product of the values at a large power of two; non-trivial: always"""
    seed, m, n, top = case
    r = random.Random(seed)
    A = [r.randint(-top, top) for _ in range(m - 1)] + [1]
    B = [r.randint(-top, top) for _ in range(n - 1)] + [-1]
    C = call(PA.mul_karatsuba, list(A), list(B))
    shift = 2*top.bit_length() + 20

    def at(L):
        half = len(L)//2
        if half < 20:
            return sum(c << (shift*i) for (i, c) in enumerate(L))
        return at(L[:half]) + (at(L[half:]) << (shift*half))
    while C and C[-1] == 0:
        C.pop()
    same(len(C), m + n - 1, "degree of the product + 1")
    ensure(at(A)*at(B) == at(C), "mul_karatsuba of", m, "and", n, "coefficients is wrong")
    return True


@law("C22", st.tuples(st.lists(st.integers(-3, 3), min_size=2, max_size=3), st.integers(150, 900)), quick=10, cpu=90)
def high_powers(case):
    """powers with exponents in the hundreds, by both methods, by their values; non-trivial: degree at least 200"""
    L, k = case
    f = call(PP.PolyZZ, list(L))
    p, q = call(lambda: f**k), call(f.power_binary, k)
    for x in (1, -1, 2, 3, 10**6):
        v = sum(c*x**i for (i, c) in enumerate(L))
        same(call(p, x) == v**k, True, "value of", L, "to the power", k)
        same(call(q, x) == v**k, True, "value of", L, "to the power", k, "by power_binary")
    return any(L[1:]) and k >= 200


@law("C26", st.tuples(st.integers(40, 1500), st.integers(0, 10**9)), quick=12)
def first_permutations_of_many(case):
    """the first permutations of up to 1500 elements against their definition (next in lexicographic order); non-trivial: always"""
    n, seed = case
    r = random.Random(seed)
    word = [r.randrange(n) for _ in range(n)]
    want = sorted(word)

    def successor(w):
        j = len(w) - 2
        while j >= 0 and w[j] >= w[j + 1]:
            j -= 1
        l = len(w) - 1
        while w[j] >= w[l]:
            l -= 1
        w = list(w)
        w[j], w[l] = w[l], w[j]
        return w[:j + 1] + w[j + 1:][::-1]
    expected = [want]
    if want[0] != want[-1]:
        for _ in range(60):
            expected.append(successor(expected[-1]))
        for fn in (PE.phillips, PE.knuth_algorithm_l):
            got = call(lambda: list(itertools.islice(fn(list(word)), len(expected))))
            ensure(got == expected, fn.__name__, "of", n, "elements: the first arrangements are wrong")
    return True


@law("C27", st.tuples(st.integers(30, 1400), st.integers(0, 4)), quick=12)
def combinations_and_tuples_of_many(case):
    """almost all of up to 1400 elements, and long tuples; non-trivial: always"""
    n, k = case
    if k <= 2 and not (k == 2 and n > 150):
        got = call_list(CO.combinations, n, n - k, limit=12000)
        want = {tuple(sorted(set(range(n)) - set(c))) for c in itertools.combinations(range(n), k)}
        ensure(len(got) == len(want) and {tuple(sorted(c)) for c in got} == want, "combinations of", n - k, "out of", n)
    got = call(lambda: list(itertools.islice(TU.n_tuples(n, 2), 40)))
    want = [[0]*(n - 6) + [int(c) for c in format(i, "06b")] for i in range(40)]
    ensure(got == want, "the first tuples of length", n)
    return True


@law("C28", st.tuples(st.integers(0, 10**9), st.integers(60, 160), st.integers(500, 4000)), quick=4, cpu=90)
def knapsack_of_many_items(case):
    """up to 160 items and capacities of thousands, against a one-row table; non-trivial: always"""
    seed, n, capacity = case
    r = random.Random(seed)
    items = [(r.randint(0, 100), r.randint(1, 120)) for _ in range(n)]
    best = [0]*(capacity + 1)
    for (v, w) in items:
        for c in range(capacity, w - 1, -1):
            if best[c - w] + v > best[c]:
                best[c] = best[c - w] + v
    value, used = call(KN.dynamic_programming, list(items), capacity)
    same(value, best[capacity], "dynamic_programming of many items")
    same(sum(v for (v, w) in used), value, "value of the items used")
    ensure(sum(w for (v, w) in used) <= capacity, "weight of the items used")
    return True
