"""C37-C40: shortest paths, minimum spanning trees, all spanning trees, Steiner trees."""
import functools
import itertools
import random
from fractions import Fraction

from hypothesis import strategies as st

from pbt import gens
from pbt.core import Each, call, call_list, ensure, law, must_raise, reject, same
from pbt.gens import adjacency, all_graphs, components, mk_graph

from rosemary.graphs.algorithms import paths as P
from rosemary.graphs.algorithms import spanning_trees as S
from rosemary.graphs.algorithms import steiner_trees as ST

INF = float("inf")


# ------------------------------------------------------------------ C37

def all_pairs(lit):
    """Distances by relaxation until nothing changes (nonnegative weights)."""
    adj = adjacency(lit)
    out = {}
    if len(lit[0]) > 25:
        # breadth-first relaxation from a work list
        for s in lit[0]:
            d = {u: INF for u in lit[0]}
            d[s] = 0
            work = [s]
            while work:
                new = {}
                for u in work:
                    for (v, w) in adj[u].items():
                        if d[u] + w < d[v]:
                            d[v] = d[u] + w
                            new[v] = 1
                work = list(new)
            out[s] = d
        return adj, out
    for s in lit[0]:
        d = {u: INF for u in lit[0]}
        d[s] = 0
        changed = True
        while changed:
            changed = False
            for (u, v, w) in lit[1]:
                for (a, b) in ((u, v), (v, u)):
                    if d[a] + w < d[b]:
                        d[b] = d[a] + w
                        changed = True
        out[s] = d
    return adj, out


def check_tree(adj, s, dist, prev, want, what):
    same(set(dist), set(want), what, "vertices with a distance")
    for v in want:
        same(dist[v], want[v], what, "distance from", s, "to", v)
    same(prev.get(s), None, what, "predecessor of the root")
    for v in want:
        p = prev.get(v)
        if v == s or want[v] == INF:
            same(p, None, what, "predecessor of", v)
            continue
        u = v
        steps = 0
        while u != s:
            p = prev.get(u)
            ensure(p is not None and p in adj[u], what, "predecessor of", u, "is", p)
            same(want[p] + adj[u][p], want[u], what, "length of the path to", u, "through its predecessor", p)
            u = p
            steps += 1
            ensure(steps <= len(adj), what, "the predecessors of", v, "run in a cycle")


def check_path(adj, s, t, path, length, what):
    ensure(len(path) > 0 and path[0] == s and path[-1] == t, what, "path from", s, "to", t, "is", path)
    total = 0
    for (a, b) in zip(path, path[1:]):
        ensure(b in adj[a], what, "path", path, "uses", (a, b))
        total += adj[a][b]
    same(total, length, what, "length of", path)


def check_paths(lit, integral):
    g = call(mk_graph, lit)
    adj, D = all_pairs(lit)
    n = len(lit[0])
    far = 0
    for s in lit[0][:4]:
        want = D[s]
        far = max([far] + [1 for v in want if want[v] not in (0, INF) and (v not in adj[s] or adj[s][v] > want[v])])
        for fn in (P.dijkstra, P.dijkstra_pairing_heap, P.bellman_ford) + ((P.dijkstra_buckets,) if integral else ()):
            dist, prev = call(fn, g, s)
            check_tree(adj, s, dist, prev, want, fn.__name__)
        seen = []
        last = 0
        for item in call_list(P.dijkstra_iterator, g, s, limit=1000):
            v, d, path = item
            same(d, want[v], "dijkstra_iterator distance of", v)
            ensure(d >= last, "dijkstra_iterator is not in nondecreasing order of distance")
            last = d
            check_path(adj, s, v, path, d, "dijkstra_iterator")
            seen.append(v)
        same(sorted(seen), sorted(v for v in want if want[v] < INF), "vertices yielded by dijkstra_iterator from", s)
        for t in lit[0]:
            r = call(P.dijkstra_bidirectional, g, s, t)
            if want[t] == INF:
                ensure(r == INF or (isinstance(r, tuple) and r[0] == INF), "dijkstra_bidirectional between disconnected vertices", (s, t), "returns", r)
            else:
                same(r[0], want[t], "dijkstra_bidirectional distance", (s, t))
                check_path(adj, s, t, r[1], want[t], "dijkstra_bidirectional")
    dist, pred = call(P.floyd_warshall, g)
    same(set(dist), {(u, v) for u in lit[0] for v in lit[0]}, "pairs with a distance in floyd_warshall")
    for u in lit[0]:
        for v in lit[0]:
            same(dist[u, v], D[u][v], "floyd_warshall distance", (u, v))
            p = pred[u, v]
            if u == v or D[u][v] == INF:
                same(p, None, "floyd_warshall predecessor", (u, v))
            else:
                x = v
                steps = 0
                while x != u:
                    p = pred[u, x]
                    ensure(p is not None and p in adj[x], "floyd_warshall predecessor", (u, x), "is", p)
                    same(D[u][p] + adj[p][x], D[u][x], "length of the path", (u, x), "through its predecessor", p)
                    x = p
                    steps += 1
                    ensure(steps <= n, "floyd_warshall predecessors towards", u, "from", v, "run in a cycle")
    return bool(far)


int_w = st.one_of(st.integers(1, 4), st.integers(0, 3), st.integers(0, 60))
frac_w = st.one_of(st.integers(0, 40).map(lambda k: k/8), st.integers(0, 5))


@law("C37", gens.graphs(max_n=9, weights=int_w, labels=("int", "int", "str", "gap", "tup")), quick=400, thorough=8000, shards=3)
def integral_weights(case):
    """some pair of vertices is joined by a shorter path than their edge, or only by a path"""
    return check_paths(case, True)


@law("C37", gens.graphs(min_n=4, max_n=9, weights=st.integers(1, 12), connected=True, labels=("int", "str")), quick=300, thorough=8000, shards=3)
def integral_weights_connected(case):
    """some pair of vertices is joined by a shorter path than their edge, or only by a path"""
    return check_paths(case, True)


@law("C37", gens.graphs(max_n=8, weights=frac_w, labels=("int", "str")), quick=200, thorough=4000)
def fractional_weights(case):
    """some pair of vertices is joined by a shorter path than their edge, or only by a path"""
    return check_paths(case, False)


@law("C37", gens.graphs(min_n=12, max_n=25, weights=st.integers(0, 30), labels=("int",), connected=True, shuffle=False), quick=25, thorough=800)
def larger_graphs(case):
    """some pair of vertices is joined by a shorter path than their edge, or only by a path"""
    return check_paths(case, True)


@law("C37", gens.seeded_graphs(20, 60, weights=(1, 2, 5, 50)), quick=40, thorough=400)
def networks(case):
    """some pair of vertices is joined by a shorter path than their edge, or only by a path"""
    return check_paths(gens.seeded_graph(*case), True)


# floats of very different size whose sums are exact: multiples of 2**-80 below 2**-40, and of 2**-10
tiny_w = st.integers(0, 50).map(lambda k: k*2.0**-80)


@law("C37", gens.graphs(max_n=8, weights=st.one_of(tiny_w, tiny_w, tiny_w.map(lambda w: w*2.0**25)), labels=("int", "str")), quick=120, thorough=3000)
def tiny_weights(case):
    """some pair of vertices is joined by a shorter path than their edge, or only by a path"""
    return check_paths(case, False)


@law("C37", gens.graphs(max_n=6, connected=True, labels=("int", "str"), weights=st.one_of(
    st.integers(0, 3), st.tuples(st.sampled_from([250, 500, 1020, 4090, 65530, 130000, 1 << 18, 1 << 20, 1 << 21]), st.integers(0, 9)).map(sum))), quick=60, thorough=800)
def bucket_search_across_gaps(case):
    """a distance of at least 1000"""
    g = call(mk_graph, case)
    adj, D = all_pairs(case)
    for s in case[0][:2]:
        dist, prev = call(P.dijkstra_buckets, g, s)
        check_tree(adj, s, dist, prev, D[s], "dijkstra_buckets")
    return max(D[case[0][0]].values()) >= 1000


# integers that a float cannot tell apart
huge_w = st.tuples(st.sampled_from([1 << 53, 1 << 60, 10**17, 2*10**17, 10**25]), st.integers(0, 3)).map(sum)


@law("C37", gens.graphs(max_n=8, weights=st.one_of(huge_w, huge_w, st.integers(0, 3)), labels=("int", "str")), quick=250, thorough=4000, shards=2)
def huge_weights(case):
    """some pair of vertices is joined by a shorter path than their edge, or only by a path"""
    return check_paths(case, False)


@law("C37", gens.graphs(max_n=7, weights=st.sampled_from([1, 2, 3, 0, 2.5, 0.25]), labels=("int", "str")), quick=150, thorough=3000)
def bucket_search_needs_integers(case):
    """a weight that is not an integer is reachable"""
    g = call(mk_graph, case)
    adj = adjacency(case)
    bad = False
    for s in case[0]:
        comp = next(c for c in components(case) if s in c)
        if any(isinstance(w, float) for u in comp for w in adj[u].values()):
            bad = True
            must_raise(ValueError, P.dijkstra_buckets, g, s)
        else:
            call(P.dijkstra_buckets, g, s)
    return bad


@law("C37", gens.graphs(max_n=7, weights=st.sampled_from([1, 2, 3, 0, 5, -1, -4]), labels=("int", "str")), quick=300, thorough=5000)
def negative_weights(case):
    """some edge is negative"""
    # In an undirected graph a negative edge, walked back and forth, is a negative cycle.
    g = call(mk_graph, case)
    neg = [e for e in case[1] if e[2] < 0]
    if neg:
        must_raise(ValueError, P.floyd_warshall, g)
    for comp in components(case):
        sub = ([v for v in case[0] if v in comp], [e for e in case[1] if e[0] in comp])
        s = sub[0][0]
        if any(e[2] < 0 for e in sub[1]):
            must_raise(ValueError, P.bellman_ford, g, s)
        else:
            adj, D = all_pairs(sub)
            want = {v: D[s].get(v, INF) for v in case[0]}
            dist, prev = call(P.bellman_ford, g, s)
            check_tree(adjacency(case), s, dist, prev, want, "bellman_ford")
    return bool(neg)


@law("C37", gens.graphs(max_n=5, labels=("int", "str")), quick=60)
def unknown_vertices(case):
    """always"""
    g = call(mk_graph, case)
    u = case[0][0]
    for x in (-1, "nowhere"):
        for fn in (P.dijkstra, P.dijkstra_buckets, P.dijkstra_pairing_heap, P.bellman_ford):
            must_raise(ValueError, fn, g, x)
        must_raise(ValueError, lambda: list(P.dijkstra_iterator(g, x)))
        must_raise(ValueError, P.dijkstra_bidirectional, g, x, u)
        must_raise(ValueError, P.dijkstra_bidirectional, g, u, x)
    return True


# ------------------------------------------------------------------ C38

def forest_weight(vertices, edges):
    """Weight and size of a minimum spanning forest, by adding edges in order of weight to labelled components."""
    label = {v: i for (i, v) in enumerate(vertices)}
    total = 0
    k = 0
    for (w, u, v) in sorted(((e[2], e[0], e[1]) for e in edges), key=lambda t: t[0]):
        a, b = label[u], label[v]
        if a != b:
            for x in label:
                if label[x] == b:
                    label[x] = a
            total += w
            k += 1
    return total, k


def check_forest(lit, weight, edges, want, what):
    adj = adjacency(lit)
    total = 0
    for (u, v) in edges:
        ensure(u < v and v in adj[u], what, "edge", (u, v), "of the tree is not an edge of the graph in sorted form")
        total += adj[u][v]
    same(edges, sorted(edges), what, "edges are sorted")
    _, k = forest_weight(lit[0], [(u, v, 0) for (u, v) in edges])
    same(k, len(edges), what, "edges that join two components, among those of the tree", edges)
    same(total, weight, what, "weight of the reported edges")
    same((weight, len(edges)), want, what, "(weight, number of edges)")


mst_w = st.one_of(st.integers(1, 3), st.integers(-5, 9), st.integers(0, 100), st.integers(0, 20).map(lambda k: k/4))


def check_mst(lit):
    g = call(mk_graph, lit)
    want = forest_weight(lit[0], lit[1])
    for fn in (S.kruskal, S.cheriton_tarjan):
        w, edges = call(fn, g)
        check_forest(lit, w, edges, want, fn.__name__)
    comps = components(lit)
    adj = adjacency(lit)
    for comp in comps:
        sub = ([v for v in lit[0] if v in comp], [e for e in lit[1] if e[0] in comp])
        root = sub[0][-1]
        want = forest_weight(*sub)
        w, edges = call(S.prim, g, root)
        check_forest(sub, w, edges, want, "prim")
        w, prev = call(S.prim, g, root, edge_list=False)
        same(w, want[0], "prim weight with predecessors")
        same(set(prev), set(lit[0]), "vertices in the predecessor dict of prim")
        for v in lit[0]:
            if v == root or v not in comp:
                same(prev[v], None, "prim predecessor of", v)
                continue
            u = v
            steps = 0
            while u != root:
                ensure(prev[u] in adj[u], "prim predecessor of", u, "is", prev[u])
                u = prev[u]
                steps += 1
                ensure(steps <= len(comp), "prim predecessors run in a cycle")
        same(sum(adj[v][prev[v]] for v in comp if v != root), w, "weight of the prim tree")
    if len(comps) == 1:
        w, edges = call(S.prim, g)
        check_forest(lit, w, edges, forest_weight(lit[0], lit[1]), "prim without root")
    return len(lit[1]) > len(lit[0]) - len(comps)


@law("C38", gens.graphs(max_n=10, weights=mst_w, labels=("int", "int", "str", "gap", "tup")), quick=600, thorough=12000, shards=3)
def minimum_spanning_forests(case):
    """the graph has a cycle"""
    return check_mst(case)


@law("C38", gens.graphs(min_n=4, max_n=10, weights=mst_w, connected=True, labels=("int", "str")), quick=300, thorough=6000, shards=2)
def minimum_spanning_trees(case):
    """the graph has a cycle"""
    return check_mst(case)


@law("C38", gens.graphs(max_n=8, weights=st.one_of(huge_w, huge_w, huge_w.map(lambda w: -w)), labels=("int", "str")), quick=250, thorough=4000)
def huge_weight_forests(case):
    """the graph has a cycle"""
    return check_mst(case)


@law("C38", st.tuples(st.integers(0, 10**9), st.integers(12, 45), st.sampled_from([1, 3, 20, 10**6]), st.sampled_from([0.02, 0.1, 0.3, 0.8])), quick=40, thorough=1000)
def larger_spanning_trees(case):
    """always"""
    seed, n, top, density = case
    lit = seeded_connected(seed, n, top, density)
    check_mst(lit)
    return True


# ------------------------------------------------------------------ C39

def spanning_trees(lit):
    V, E = lit
    adj = adjacency(lit)
    n = len(V)
    pairs = sorted((min(u, v), max(u, v)) for (u, v, w) in E)
    out = []
    for T in itertools.combinations(pairs, n - 1):
        if forest_weight(V, [(u, v, 0) for (u, v) in T])[1] == n - 1:
            out.append((sum(adj[u][v] for (u, v) in T), list(T)))
    return out


def check_gabow(lit, ks=(1, 2, 5)):
    g = call(mk_graph, lit)
    want = spanning_trees(lit)
    if len(want) > 2500:
        reject()
    got = call_list(S.gabow, g, limit=len(want) + 5)
    for (w, T) in got:
        same(sorted(T), list(T), "edges of a tree are sorted")
    same(sorted(map(repr, got)), sorted(map(repr, want)), "gabow yields every spanning tree once, with its weight")
    ws = [w for (w, T) in got]
    same(ws, sorted(ws), "gabow yields the trees in nondecreasing order of weight")
    for k in ks:
        part = call_list(S.gabow, g, k, limit=len(want) + 5)
        same([w for (w, T) in part], sorted(ws)[:k], "weights of gabow with k =", k)
        same(len(set(map(repr, part))), len(part), "gabow with k =", k, "repeats a tree")
    # Matrix-Tree theorem: any cofactor of the Laplacian counts the spanning trees
    n = len(lit[0])
    if n >= 2:
        L = call(g.laplacian_matrix)
        M = [[Fraction(L[i][j]) for j in range(1, n)] for i in range(1, n)]
        det = Fraction(1)
        for i in range(n - 1):
            p = next((r for r in range(i, n - 1) if M[r][i]), None)
            if p is None:
                det = Fraction(0)
                break
            if p != i:
                M[i], M[p] = M[p], M[i]
                det = -det
            det *= M[i][i]
            for r in range(i + 1, n - 1):
                f = M[r][i]/M[i][i]
                for c in range(i, n - 1):
                    M[r][c] -= f*M[i][c]
        same(det, len(got), "cofactor of the Laplacian against the number of spanning trees")
    return len(want) >= 3


@law("C39", gens.graphs(max_n=6, weights=st.one_of(st.just(1), st.integers(1, 3), st.integers(-3, 30)), connected=True, labels=("int", "str", "gap")), quick=250, thorough=4000, shards=3, cpu=60)
def enumerate_spanning_trees(case):
    """at least three spanning trees"""
    return check_gabow(case)


def connected_small(tier):
    for lit in all_graphs(4 if tier == "quick" else 5):
        if len(components(lit)) == 1:
            yield lit
            yield (lit[0], [(u, v, (3*u + 5*v) % 4) for (u, v, _) in lit[1]])


@law("C39", gens.graphs(max_n=5, weights=huge_w, connected=True, labels=("int", "str")), quick=120, thorough=1000, cpu=60)
def enumerate_with_huge_weights(case):
    """at least three spanning trees"""
    return check_gabow(case)


def constrained_tree(V, E, inc, exc):
    label = {v: v for v in V}
    total = 0
    tree = []
    for (w, u, v) in [e for e in E if (e[1], e[2]) in inc] + [e for e in E if (e[1], e[2]) not in inc and (e[1], e[2]) not in exc]:
        a, b = label[u], label[v]
        if a != b:
            for x in V:
                if label[x] == b:
                    label[x] = a
            total += w
            tree.append((u, v))
    return (total, sorted(tree)) if len(tree) == len(V) - 1 else None


def best_trees(lit, k):
    """The weights of the k lightest spanning trees, by splitting the set of trees on their edges (Lawler)."""
    V = lit[0]
    E = sorted((w, min(u, v), max(u, v)) for (u, v, w) in lit[1])
    pool = [constrained_tree(V, E, frozenset(), frozenset()) + (frozenset(), frozenset())]
    out = []
    while pool and len(out) < k:
        i = min(range(len(pool)), key=lambda i: pool[i][0])
        w, tree, inc, exc = pool.pop(i)
        out.append(w)
        for e in tree:
            if e in inc:
                continue
            t = constrained_tree(V, E, inc, exc | {e})
            if t is not None:
                pool.append(t + (inc, exc | {e}))
            inc = inc | {e}
    return out


@law("C39", st.tuples(gens.seeded_graphs(7, 16, weights=(1, 2, 5, 100)), st.integers(1, 40)), quick=150, thorough=500, cpu=60)
def lightest_spanning_trees(case):
    """at least three spanning trees asked for and found"""
    args, k = case
    lit = gens.seeded_graph(*args, connected=True)
    adj = adjacency(lit)
    want = best_trees(lit, k)
    got = call_list(S.gabow, call(mk_graph, lit), k, limit=k + 2)
    same([w for (w, T) in got], want, "weights of the", k, "lightest spanning trees")
    for (w, T) in got:
        check_forest(lit, w, T, (w, len(lit[0]) - 1), "gabow")
    same(len({tuple(T) for (w, T) in got}), len(got), "different trees")
    return len(got) >= 3


@law("C39", Each(connected_small), cpu=60)
def enumerate_spanning_trees_small(case):
    """at least three spanning trees"""
    return check_gabow(case, ks=(2,))


# ------------------------------------------------------------------ C40

def steiner_optimum(lit, terminals):
    """Minimum over vertex sets containing the terminals of the spanning tree weight of the induced subgraph."""
    V, E = lit
    T = set(terminals)
    others = [v for v in V if v not in T]
    best = INF
    for r in range(len(others) + 1):
        for extra in itertools.combinations(others, r):
            X = T | set(extra)
            w, k = forest_weight(sorted(X), [e for e in E if e[0] in X and e[1] in X])
            if k == len(X) - 1 and w < best:
                best = w
    return best


@st.composite
def steiner_cases(draw):
    w = draw(st.sampled_from([st.integers(1, 3), st.integers(1, 30), st.integers(1, 16).map(lambda k: k/4), huge_w]))
    lit = draw(gens.graphs(min_n=2, max_n=8, weights=w, connected=True, labels=("int", "str")))
    t = draw(st.integers(2, len(lit[0])))
    return (lit, list(draw(st.permutations(lit[0])))[:t])


@st.composite
def steiner_extra(draw):
    """A connected component with the terminals, and something else that no tree may touch."""
    lit, terms = draw(steiner_cases())
    if draw(st.booleans()):
        V, E = lit
        more = [99, 100, 101] if isinstance(V[0], int) else ["zz0", "zz1", "zz2"]
        return ((V + more, E + [(more[0], more[1], 1)]), terms)
    return (lit, terms)


def steiner_by_subsets(lit, terminals):
    """The same optimum by the Dreyfus-Wagner recursion over sets of terminals."""
    adj, D = all_pairs(lit)
    V = [v for v in lit[0] if D[terminals[0]][v] < INF]
    T = terminals[1:]
    t = len(T)
    best = {}
    for S in range(1, 1 << t):
        low = S & -S
        if S == low:
            best[S] = {v: D[T[low.bit_length() - 1]][v] for v in V}
            continue
        here = {v: INF for v in V}
        sub = (S - 1) & S
        while sub:
            if sub & low:
                for v in V:
                    here[v] = min(here[v], best[sub][v] + best[S ^ sub][v])
            sub = (sub - 1) & S
        best[S] = {v: min(here[u] + D[u][v] for u in V) for v in V}
    return best[(1 << t) - 1][terminals[0]]


@law("C40", st.tuples(gens.graphs(min_n=2, max_n=7, weights=st.integers(1, 9), connected=True, labels=("int",)), st.integers(2, 5)), quick=25, thorough=200)
def the_two_oracles_agree(case):
    """never (the case calls no code of the repository)"""
    lit, t = case
    terms = lit[0][:t]
    if steiner_optimum(lit, terms) != steiner_by_subsets(lit, terms):
        raise AssertionError("the oracles disagree")


@law("C40", st.tuples(gens.seeded_graphs(10, 40, weights=(1, 2, 3, 30)), st.integers(2, 6)), quick=150, thorough=1500, shards=2)
def steiner_trees_larger(case):
    """the best tree must pass through a vertex that is not a terminal, or leaves terminals adjacent in the graph apart"""
    args, t = case
    lit = gens.seeded_graph(*args, connected=True)
    return check_steiner(lit, random.Random(args[0] + 1).sample(lit[0], t), kinds=(list,), optimum=steiner_by_subsets)


def pruning_step():
    """The helper of the module, if it still exists and has its form: it is not public and may be reorganised."""
    prune = getattr(ST, "_delete_nonterminal_leaves", None)
    try:
        return prune if [tuple(e) for e in prune([(0, 1)], [0, 1])] in ([(0, 1)], [(1, 0)]) else None
    except Exception:
        return None


@law("C40", st.tuples(gens.seeded_graphs(3, 40, weights=(1,)), st.integers(0, 10**6), st.sampled_from([0.1, 0.3, 0.6])), quick=150, thorough=3000)
def pruning_leaves(case):
    """a vertex is pruned"""
    # the step that both heuristics end with: every leaf left is a terminal, and what was cut off held no terminal
    prune = pruning_step()
    args, seed, density = case
    lit = gens.seeded_graph(args[0], args[1], args[2] if args[2] in ("tree", "caterpillar") else "tree", 1)
    r = random.Random(seed)
    terms = [v for v in lit[0] if r.random() < density]
    if len(terms) < 2:
        reject()
    if prune is None:
        return False
    adj = {v: set(d) for (v, d) in adjacency(lit).items()}
    while True:
        cut = [v for v in adj if len(adj[v]) == 1 and v not in terms]
        if not cut:
            break
        for v in cut:
            for u in adj.pop(v):
                adj[u].discard(v)
    want = sorted((u, v) for u in adj for v in adj[u] if u < v)
    got = call(prune, [(u, v) for (u, v, w) in lit[1]], terms)
    same(sorted((min(e), max(e)) for e in got), want, "edges of the pruned tree")
    return len(want) < len(lit[1])


def check_steiner(lit, terms, kinds=(list, tuple, set), optimum=steiner_optimum):
    g = call(mk_graph, lit)
    adj = adjacency(lit)
    comp = next(c for c in components(lit) if terms[0] in c)
    sub = ([v for v in lit[0] if v in comp], [e for e in lit[1] if e[0] in comp])
    opt = optimum(sub, terms)
    t = len(terms)
    for fn in (ST.distance_network_heuristic, ST.minimum_cost_paths_heuristic):
        for kind in kinds:
            w, edges = call(fn, g, kind(terms))
            total = 0
            for (u, v) in edges:
                ensure(v in adj[u], fn.__name__, "edge", (u, v), "is not in the graph")
                total += adj[u][v]
            same(total, w, fn.__name__, "weight of the reported edges")
            X = {x for e in edges for x in e}
            ensure(set(terms) <= X, fn.__name__, "misses terminals:", set(terms) - X)
            same(forest_weight(sorted(X), [(u, v, 0) for (u, v) in edges])[1], len(X) - 1, fn.__name__, "edges joining components (it must be connected):", edges)
            same(len(edges), len(X) - 1, fn.__name__, "number of edges (it must be a tree):", edges)
            for x in X - set(terms):
                ensure(sum(1 for e in edges if x in e) >= 2, fn.__name__, "keeps the leaf", x, "which is not a terminal")
            ensure(opt <= w and t*w <= 2*(t - 1)*opt, fn.__name__, "weight", w, "with optimum", opt, "for", t, "terminals")
    same(call(g.edge_set, weights=True), {(min(u, v), max(u, v), w) for (u, v, w) in lit[1]}, "the graph is not modified")
    w, k = forest_weight(terms, [e for e in lit[1] if e[0] in terms and e[1] in terms])
    return k < t - 1 or opt < w


@law("C40", steiner_extra(), quick=400, thorough=8000, shards=3)
def steiner_trees(case):
    """the best tree must pass through a vertex that is not a terminal, or leaves terminals adjacent in the graph apart"""
    return check_steiner(*case)


def seeded_connected(seed, n, top, density):
    r = random.Random(seed)
    have = {}
    for j in range(1, n):
        have[r.randrange(j), j] = r.randint(1, top)
    for j in range(n):
        for i in range(j):
            if r.random() < density and (i, j) not in have:
                have[i, j] = r.randint(1, top)
    perm = list(range(n))
    r.shuffle(perm)
    return (list(range(n)), [(perm[i], perm[j], w) for ((i, j), w) in have.items()])


@law("C40", st.tuples(st.integers(0, 10**9), st.integers(5, 10), st.sampled_from([2, 2, 3, 5]), st.integers(3, 6)), quick=900, thorough=20000, shards=3)
def steiner_trees_with_ties(case):
    """the best tree must pass through a vertex that is not a terminal, or leaves terminals adjacent in the graph apart"""
    # small integral weights: ties make shortest paths cross, so that leaves have to be pruned
    seed, n, top, t = case
    lit = seeded_connected(seed, n, top, 0.3)
    return check_steiner(lit, random.Random(seed + 1).sample(lit[0], min(t, n)), kinds=(list,))


@law("C40", st.tuples(gens.graphs(min_n=2, max_n=9, weights=st.integers(1, 20), connected=True, labels=("int", "str")), st.integers(0, 8), st.integers(0, 8)), quick=500, thorough=3000)
def two_terminals_and_all(case):
    """the two terminals are not adjacent"""
    lit, i, j = case
    V = lit[0]
    s, t = V[i % len(V)], V[j % len(V)]
    if s == t:
        reject()
    g = call(mk_graph, lit)
    adj, D = all_pairs(lit)
    for fn in (ST.distance_network_heuristic, ST.minimum_cost_paths_heuristic):
        same(call(fn, g, [s, t])[0], D[s][t], fn.__name__, "with two terminals against the shortest path", (s, t))
        same(call(fn, g, list(V))[0], forest_weight(V, lit[1])[0], fn.__name__, "with all vertices against the minimum spanning tree")
    return t not in adj[s]
