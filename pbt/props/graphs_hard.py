"""C42-C45: cliques, independent sets, colorings, Hamiltonian paths."""
import functools
import itertools
import math

from hypothesis import strategies as st

from pbt import gens
from pbt.core import Each, call, call_list, ensure, law, reject, same
from pbt.gens import adjacency, all_graphs, edge_set, mk_graph

from rosemary.graphs.algorithms import cliques as CL
from rosemary.graphs.algorithms import coloring as CO
from rosemary.graphs.algorithms import hamiltonian_paths as HP
from rosemary.graphs.algorithms import independent_sets as IS


# ---------------------------------------------------------------- oracles on bit masks

def masks(lit):
    """(sorted vertices, adjacency masks) by position in the sorted order."""
    V = sorted(lit[0])
    pos = {u: i for (i, u) in enumerate(V)}
    nb = [0]*len(V)
    for (u, v, w) in lit[1]:
        nb[pos[u]] |= 1 << pos[v]
        nb[pos[v]] |= 1 << pos[u]
    return V, nb


def clique_flags(nb):
    """flag[S] for every vertex set S: is S a clique?"""
    n = len(nb)
    flag = bytearray(1 << n)
    flag[0] = 1
    for S in range(1, 1 << n):
        low = (S & -S).bit_length() - 1
        rest = S & (S - 1)
        flag[S] = 1 if flag[rest] and rest & ~nb[low] == 0 else 0
    return flag


def co(nb):
    n = len(nb)
    full = (1 << n) - 1
    return [full & ~nb[i] & ~(1 << i) for i in range(n)]


def culberson_cost(nb, limit=6000):
    """Upper estimate of the calls made by the truncated backtracking of culberson (factorial on sparse graphs); None above the limit."""
    n = len(nb)
    memo = {0: 1}

    def cost(S):
        if S not in memo:
            total = 1
            for i in range(n):
                if S >> i & 1:
                    total += cost(S & ~nb[i] & ~(1 << i))
                    if total > limit:
                        break
            memo[S] = total
        return memo[S]
    c = cost((1 << n) - 1)
    return c if c <= limit else None


def members(S, V):
    return [V[i] for i in range(len(V)) if S >> i & 1]


def maximal(nb):
    """Maximal cliques as masks."""
    flag = clique_flags(nb)
    n = len(nb)
    out = []
    for S in range(1, 1 << n):
        if flag[S] and not any(not S >> i & 1 and S & ~nb[i] == 0 for i in range(n)):
            out.append(S)
    return out


def independent(lit, S):
    E = edge_set(lit)
    return len(set(S)) == len(S) and all(u in lit[0] for u in S) and not any(frozenset(p) in E for p in itertools.combinations(S, 2))


def clique(lit, S):
    E = edge_set(lit)
    return len(set(S)) == len(S) and all(u in lit[0] for u in S) and all(frozenset(p) in E for p in itertools.combinations(S, 2))


# ------------------------------------------------------------------ C42

def check_maximal(lit):
    g = call(mk_graph, lit)
    V, nb = masks(lit)
    want = sorted(members(S, V) for S in maximal(nb))
    for fn in (CL.tomita, CL.bron_kerbosch, CL.bron_kerbosch_binary):
        got = call_list(fn, g, limit=10*len(want) + 10)
        same(sorted(sorted(c) for c in got), want, fn.__name__, "maximal cliques")
    got = call_list(CL.bron_kerbosch_binary, g, limit=10*len(want) + 10)
    same(got, want, "bron_kerbosch_binary yields the cliques in lexicographic order")
    for kw in ({}, {"algorithm": "tomita"}, {"algorithm": "bron_kerbosch"}, {"algorithm": "bron_kerbosch_binary"}):
        got = call_list(CL.maximal_cliques, g, limit=10*len(want) + 10, **kw)
        same(sorted(sorted(c) for c in got), want, "maximal_cliques", kw)
    want_is = sorted(members(S, V) for S in maximal(co(nb)))
    got = call_list(IS.maximal_independent_sets, g, limit=10*len(want_is) + 10)
    same(sorted(sorted(c) for c in got), want_is, "maximal_independent_sets")
    same(call(g.edge_set), {(min(u, v), max(u, v)) for (u, v, w) in lit[1]}, "the graph is not modified")
    return len(want) >= 2 and max(len(c) for c in want) >= 3


@law("C42", gens.graphs(max_n=9, labels=("int", "str", "gap", "tup")), quick=450, thorough=8000, shards=3)
def maximal_cliques(case):
    """at least two maximal cliques, one of three or more vertices"""
    return check_maximal(case)


@law("C42", Each(lambda tier: all_graphs(4 if tier == "quick" else 6)), cpu=60)
def maximal_cliques_small(case):
    """at least two maximal cliques, one of three or more vertices"""
    return check_maximal(case)


@law("C42", gens.graphs(min_n=10, max_n=13, labels=("int",), shuffle=False), quick=25, thorough=500)
def maximal_cliques_larger(case):
    """at least two maximal cliques, one of three or more vertices"""
    return check_maximal(case)


@law("C42", gens.seeded_graphs(14, 26, weights=(1,)), quick=120, thorough=400)
def maximal_cliques_of_networks(case):
    """at least 20 maximal cliques"""
    import networkx
    lit = gens.seeded_graph(*case)
    g = call(mk_graph, lit)
    ref = networkx.Graph()
    ref.add_nodes_from(lit[0])
    ref.add_edges_from((u, v) for (u, v, w) in lit[1])
    want = sorted(sorted(c) for c in networkx.find_cliques(ref))
    if len(want) > 3000:
        reject()
    for alg in ("tomita", "bron_kerbosch", "bron_kerbosch_binary"):
        got = call_list(CL.maximal_cliques, g, algorithm=alg, limit=10*len(want) + 10)
        same(sorted(sorted(c) for c in got), want, "maximal_cliques", alg)
    return len(want) >= 20


@law("C42", gens.seeded_graphs(60, 100, weights=(1,), shapes=gens.SPARSE), quick=30, thorough=400, cpu=60)
def maximal_cliques_many_vertices(case):
    """more than 64 vertices"""
    import networkx
    lit = gens.seeded_graph(*case)
    g = call(mk_graph, lit)
    ref = networkx.Graph()
    ref.add_nodes_from(lit[0])
    ref.add_edges_from((u, v) for (u, v, w) in lit[1])
    want = sorted(sorted(c) for c in networkx.find_cliques(ref))
    for alg in ("tomita", "bron_kerbosch", "bron_kerbosch_binary"):
        got = call_list(CL.maximal_cliques, g, algorithm=alg, limit=10*len(want) + 10)
        same(sorted(sorted(c) for c in got), want, "maximal_cliques", alg)
    h = call(mk_graph, complement_of(lit))
    got = call_list(IS.maximal_independent_sets, h, limit=10*len(want) + 10)
    same(sorted(sorted(c) for c in got), want, "maximal_independent_sets")
    return len(lit[0]) > 64


def complement_of(lit):
    have = {frozenset(e[:2]) for e in lit[1]}
    return (list(lit[0]), [(u, v, 1) for (u, v) in itertools.combinations(lit[0], 2) if frozenset((u, v)) not in have])


# ------------------------------------------------------------------ C43

@law("C43", gens.seeded_graphs(60, 100, weights=(1, 5), shapes=gens.SPARSE), quick=30, thorough=400, cpu=60)
def maximum_cliques_many_vertices(case):
    """more than 64 vertices"""
    import networkx
    lit = gens.seeded_graph(*case)
    g = call(mk_graph, lit)
    w = {u: 1 + (u*7 + case[0]) % (4*case[3]) for u in lit[0]}
    ref = networkx.Graph()
    ref.add_nodes_from(lit[0])
    ref.add_edges_from((u, v) for (u, v, _) in lit[1])
    cliques = list(networkx.find_cliques(ref))
    omega = max(map(len, cliques))
    best = max(sum(w[u] for u in c) for c in cliques)
    for fn in (CL.ostergard, CL.ostergard_binary, CL.pardalos, CL.pardalos_binary):
        size, S = call(fn, g)
        ensure(clique(lit, S), fn.__name__, "returns", S, "which is not a clique")
        same((size, len(S)), (omega, omega), fn.__name__, "(size, number of vertices) of", S)
    weight, S = call(CL.maximum_weight_clique, g, dict(w))
    ensure(clique(lit, S), "maximum_weight_clique returns", S, "which is not a clique")
    same((weight, sum(w[u] for u in S)), (best, best), "maximum weight")
    other = complement_of(lit)
    h = call(mk_graph, other)
    for fn in (IS.branch_and_bound, IS.maximum_independent_set):
        size, S = call(fn, h)
        ensure(independent(other, S), fn.__name__, "returns", S, "which is not independent")
        same((size, len(S)), (omega, omega), fn.__name__, "(size, number of vertices) of", S)
    return len(lit[0]) > 64


@law("C43", gens.seeded_graphs(14, 30, weights=(1, 5)), quick=120, thorough=400)
def maximum_cliques_of_networks(case):
    """the clique number is at least three"""
    import networkx
    lit = gens.seeded_graph(*case)
    g = call(mk_graph, lit)
    w = {u: 1 + (u*7 + case[0]) % (4*case[3]) for u in lit[0]}
    ref = networkx.Graph()
    for u in lit[0]:
        ref.add_node(u, w=w[u])
    ref.add_edges_from((u, v) for (u, v, _) in lit[1])
    omega = networkx.max_weight_clique(ref, None)[1]
    best = networkx.max_weight_clique(ref, "w")[1]
    alpha = networkx.max_weight_clique(networkx.complement(ref), None)[1]
    for fn in (CL.ostergard, CL.ostergard_binary, CL.pardalos, CL.pardalos_binary):
        size, S = call(fn, g)
        ensure(clique(lit, S), fn.__name__, "returns", S, "which is not a clique")
        same((size, len(S)), (omega, omega), fn.__name__, "(size, number of vertices) of", S)
    weight, S = call(CL.maximum_weight_clique, g, dict(w))
    ensure(clique(lit, S), "maximum_weight_clique returns", S, "which is not a clique")
    same((weight, sum(w[u] for u in S)), (best, best), "maximum weight")
    for fn in (IS.branch_and_bound, IS.maximum_independent_set):
        if fn is IS.branch_and_bound and alpha > 12:
            continue
        size, S = call(fn, g)
        ensure(independent(lit, S), fn.__name__, "returns", S, "which is not independent")
        same((size, len(S)), (alpha, alpha), fn.__name__, "(size, number of vertices) of", S)
    return omega >= 3


def check_maximum(lit, heuristics=True):
    g = call(mk_graph, lit)
    V, nb = masks(lit)
    flags = clique_flags(nb)
    omega = max(bin(S).count("1") for S in range(1 << len(V)) if flags[S])
    cflags = clique_flags(co(nb))
    alpha = max(bin(S).count("1") for S in range(1 << len(V)) if cflags[S])
    for (fn, kw) in ((CL.ostergard, {}), (CL.ostergard_binary, {}), (CL.pardalos, {}), (CL.pardalos_binary, {}), (CL.maximum_clique, {}),
                     (CL.maximum_clique, {"algorithm": "pardalos"}), (CL.maximum_clique, {"algorithm": "ostergard"})):
        size, S = call(fn, g, **kw)
        ensure(clique(lit, S), fn.__name__, kw, "returns", S, "which is not a clique")
        same((size, len(S)), (omega, omega), fn.__name__, kw, "(size, number of vertices) of", S)
    for fn in (IS.branch_and_bound, IS.maximum_independent_set):
        size, S = call(fn, g)
        ensure(independent(lit, S), fn.__name__, "returns", S, "which is not independent")
        same((size, len(S)), (alpha, alpha), fn.__name__, "(size, number of vertices) of", S)
    adj = adjacency(lit)
    if heuristics:
        for fn in (IS.greedy, IS.culberson):
            if fn is IS.culberson and culberson_cost(nb) is None:
                continue
            size, S = call(fn, g)
            ensure(independent(lit, S), fn.__name__, "returns", S, "which is not independent")
            same(size, len(S), fn.__name__, "size of", S)
            for u in V:
                ensure(u in S or any(v in S for v in adj[u]), fn.__name__, "returns", S, "which can be extended by", u)
        size, S = call(IS.greedy, g)
        delta = max(len(adj[u]) for u in V)
        ensure(3*alpha <= max(delta + 2, 3)*size, "greedy finds", size, "of", alpha, "with maximum degree", delta)
        need = sum(1/(len(adj[u]) + 1) for u in V)
        ensure(size >= need - 1e-9, "greedy finds", size, "below the bound by degrees", need)
        same(S, sorted(S), "greedy sorts its answer")
    same(call(g.edge_set), {(min(u, v), max(u, v)) for (u, v, w) in lit[1]}, "the graph is not modified")
    return 3 <= omega < len(V) or 3 <= alpha < len(V)


@law("C43", gens.graphs(max_n=9, labels=("int", "str", "gap", "tup")), quick=400, thorough=8000, shards=3)
def maximum_cliques_and_sets(case):
    """the clique number or the independence number is at least three and less than the number of vertices"""
    return check_maximum(case)


@law("C43", Each(lambda tier: all_graphs(4 if tier == "quick" else 6)), cpu=60)
def maximum_cliques_and_sets_small(case):
    """the clique number or the independence number is at least three and less than the number of vertices"""
    return check_maximum(case)


@law("C43", gens.graphs(min_n=10, max_n=13, labels=("int",), shuffle=False), quick=30, thorough=600)
def maximum_cliques_and_sets_larger(case):
    """the clique number or the independence number is at least three and less than the number of vertices"""
    return check_maximum(case)


@law("C43", st.tuples(st.sampled_from([9, 10, 11, 30, 199, 200, 201, 260]), st.integers(2, 6), st.integers(0, 10**6)), quick=10, thorough=150, cpu=120)
def large_dense_graphs(case):
    """at least 100 vertices"""
    # Complete multipartite graphs with parts of k or fewer vertices: a maximal independent set is a part.
    n, k, seed = case
    import random
    r = random.Random(seed)
    vs = list(range(n))
    r.shuffle(vs)
    parts = []
    while vs:
        j = r.randint(1, k)
        parts.append(sorted(vs[:j]))
        vs = vs[j:]
    part = {u: i for (i, p) in enumerate(parts) for u in p}
    lit = (list(range(n)), [(u, v, 1) for v in range(n) for u in range(v) if part[u] != part[v]])
    g = call(mk_graph, lit)
    for fn in (IS.culberson, IS.greedy):
        size, S = call(fn, g)
        ensure(sorted(S) in parts, fn.__name__, "returns", S, "which is not one of the parts of a complete multipartite graph")
        same(size, len(S), fn.__name__, "size")
        same(call(CL.maximum_clique, g)[0], len(parts), "clique number of the complete multipartite graph") if n <= 30 else None
    best = max(len(p) for p in parts)
    # the vertices of minimum degree are those of the largest parts
    same(call(IS.greedy, g)[0], best, "greedy takes a vertex of minimum degree")
    return n >= 100


# the last kind: integers that a float cannot tell apart
vertex_w = (st.one_of(st.integers(1, 5), st.integers(1, 100), st.integers(1, 40).map(lambda k: k/4)),
            st.tuples(st.sampled_from([1 << 60, 1 << 61, 10**17]), st.integers(0, 3)).map(sum))


@st.composite
def weighted_cases(draw):
    lit = draw(gens.graphs(max_n=9, labels=("int", "str", "gap")))
    w = draw(st.sampled_from(vertex_w))
    return (lit, [(u, draw(w)) for u in lit[0]])


@law("C43", weighted_cases(), quick=500, thorough=10000, shards=2)
def maximum_weight_cliques(case):
    """no clique of maximum weight has the maximum number of vertices, or weights differ and there are three or more vertices in the best"""
    lit, ws = case
    w = dict(ws)
    g = call(mk_graph, lit)
    V, nb = masks(lit)
    flags = clique_flags(nb)
    best = 0
    omega = 0
    for S in range(1 << len(V)):
        if flags[S]:
            m = members(S, V)
            best = max(best, sum(w[u] for u in m))
            omega = max(omega, len(m))
    weight, S = call(CL.maximum_weight_clique, g, dict(w))
    ensure(clique(lit, S), "maximum_weight_clique returns", S, "which is not a clique")
    same(sum(w[u] for u in S), weight, "weight of", S)
    same(weight, best, "maximum weight")
    nt = len(S) < omega or (len(S) >= 3 and len(set(w.values())) > 1)
    if all(isinstance(u, int) and u > 0 for u in V):
        best = max(sum(members(S, V)) for S in range(1 << len(V)) if flags[S])
        weight, S = call(CL.maximum_weight_clique, g)
        ensure(clique(lit, S), "maximum_weight_clique returns", S, "which is not a clique")
        same((weight, sum(S)), (best, best), "maximum weight with the vertices as weights")
    return nt


@law("C43", Each(lambda tier: range(1, 13 if tier == "quick" else 17)), cpu=60)
def coprime_cliques(case):
    """n >= 4"""
    from rosemary.graphs.graphs import coprime_pairs_graph
    n = case
    g = call(coprime_pairs_graph, n)
    best = 0
    size = 0

    def rec(i, S):
        nonlocal best, size
        best = max(best, sum(S))
        size = max(size, len(S))
        for k in range(i, n + 1):
            if all(math.gcd(k, x) == 1 for x in S):
                rec(k + 1, S + [k])
    rec(1, [])
    same(call(CL.maximum_clique, g)[0], size, "pairwise coprime subset of 1 .. n, size")
    same(call(CL.maximum_weight_clique, g)[0], best, "pairwise coprime subset of 1 .. n, sum")
    return n >= 4


# ------------------------------------------------------------------ C44

def chromatic(nb):
    n = len(nb)
    indep = clique_flags(co(nb))
    chi = [0]*(1 << n)
    for S in range(1, 1 << n):
        low = S & -S
        rest = S ^ low
        best = n + 1
        T = rest
        while True:                 # independent sets through the lowest vertex
            if indep[T | low] and chi[rest ^ T] + 1 < best:
                best = chi[rest ^ T] + 1
            if T == 0:
                break
            T = (T - 1) & rest
        chi[S] = best
    return chi[(1 << n) - 1]


def proper_classes(lit, k, classes, what):
    same(len(classes), k, what, "number of color classes", classes)
    same(sorted(u for c in classes for u in c), sorted(lit[0]), what, "vertices in the color classes")
    for c in classes:
        ensure(len(c) > 0, what, "empty color class in", classes)
        ensure(independent(lit, c), what, "color class", c, "contains an edge")


def proper_map(lit, k, cmap, what):
    same(set(cmap), set(lit[0]), what, "colored vertices")
    same(len(set(cmap.values())), k, what, "number of colors in", cmap)
    for (u, v, w) in lit[1]:
        ensure(cmap[u] != cmap[v], what, "gives both ends of", (u, v), "the color", cmap[u])


def greedy_ref(adj, order):
    col = {}
    for v in order:
        used = {col[u] for u in adj[v] if u in col}
        c = 0
        while c in used:
            c += 1
        col[v] = c
    return col


def coloring_cost(lit, budget=20000):
    """Nodes of an exhaustive coloring search that goes on after its first optimum, as the exact solver does, or
    None above the budget: isolated vertices and other loose parts multiply its leaves."""
    adj = adjacency(lit)
    order, color, nodes, best = set(lit[0]), {}, [0], [len(lit[0]) + 1]

    def search(used):
        nodes[0] += 1
        if nodes[0] > budget:
            return
        if not order:
            best[0] = min(best[0], used)
            return
        u = max(order, key=lambda u: (len({color[v] for v in adj[u] if v in color}), sum(v in order for v in adj[u])))
        taken = {color[v] for v in adj[u] if v in color}
        order.discard(u)
        for c in range(1, used + 2):
            if c not in taken and max(c, used) < best[0] + (c <= used):
                color[u] = c
                search(max(c, used))
                del color[u]
        order.add(u)
    search(0)
    return nodes[0] if nodes[0] <= budget else None


def check_coloring(lit, chi=None):
    g = call(mk_graph, lit)
    V, nb = masks(lit)
    adj = adjacency(lit)
    n = len(V)
    if chi is None:
        chi = chromatic(nb)
    for fn in (CO.branch_and_bound, CO.korman, CO.exact_coloring):
        if fn is CO.branch_and_bound and n > 11 and coloring_cost(lit) is None:
            continue
        k, classes = call(fn, g)
        same(k, chi, fn.__name__, "chromatic number")
        proper_classes(lit, k, classes, fn.__name__)
        k, cmap = call(fn, g, classes=False)
        same(k, chi, fn.__name__, "chromatic number")
        proper_map(lit, k, cmap, fn.__name__)
    delta = max(len(adj[u]) for u in V)
    for (fn, kw) in ((CO.dsatur, {}), (CO.greedy_sequential, {}), (CO.greedy_sequential, {"passes": 2}), (CO.maxis, {})):
        k, classes = call(fn, g, **kw)
        proper_classes(lit, k, classes, fn.__name__)
        ensure(chi <= k <= delta + 1, fn.__name__, kw, "uses", k, "colors; chromatic number", chi, "and maximum degree", delta)
        k2, cmap = call(fn, g, classes=False, **kw)
        proper_map(lit, k2, cmap, fn.__name__)
    if chi <= 2:
        same(call(CO.dsatur, g)[0], chi, "dsatur is exact on bipartite graphs")
    # greedy coloring in a given order is determined by the order
    for order in (list(lit[0]), sorted(lit[0]), sorted(lit[0], reverse=True)):
        want = greedy_ref(adj, order)
        k, cmap = call(CO.greedy_sequential, g, vertices=list(order), classes=False)
        same((k, dict(cmap)), (max(want.values()) + 1, want), "greedy_sequential in the order", order)
        k2, classes = call(CO.greedy_sequential, g, vertices=list(order), passes=2)
        proper_classes(lit, k2, classes, "greedy_sequential with two passes")
        k3, cmap = call(CO.greedy_sequential, g, vertices=list(order), passes=2, classes=False)
        proper_map(lit, k3, cmap, "greedy_sequential with two passes")
        same(k3, k2, "greedy_sequential with two passes: the number of colors as a map and as classes")
        ensure(chi <= k2 <= k, "the second pass of greedy_sequential uses", k2, "colors, the first", k)
    same(call(CO.maxis, g)[0], chi, "maxis below its color limit is exact")
    for kw in ({"color_limit": 0}, {"color_limit": 0, "mis_limit": 0}, {"color_limit": 0, "mis_limit": 0, "use_greedy": True},
               {"color_limit": 3, "mis_limit": 5}, {"color_limit": 2, "mis_limit": 4, "use_greedy": True}):
        if n > kw.get("mis_limit", 100) and not kw.get("use_greedy") and culberson_cost(nb) is None:
            continue
        k, classes = call(CO.maxis, g, **kw)
        proper_classes(lit, k, classes, "maxis {}".format(kw))
        ensure(chi <= k, "maxis", kw, "uses", k, "colors; chromatic number", chi)
        k, cmap = call(CO.maxis, g, classes=False, **kw)
        proper_map(lit, k, cmap, "maxis {}".format(kw))
    same(call(g.edge_set), {(min(u, v), max(u, v)) for (u, v, w) in lit[1]}, "the graph is not modified")
    return 3 <= chi < n


@law("C44", gens.graphs(max_n=8, labels=("int", "str", "gap")), quick=220, thorough=5000, shards=4)
def colorings(case):
    """chromatic number at least three and less than the number of vertices"""
    return check_coloring(case)


@law("C44", Each(lambda tier: all_graphs(4 if tier == "quick" else 5)), cpu=60)
def colorings_small(case):
    """chromatic number at least three and less than the number of vertices"""
    return check_coloring(case)


@law("C44", gens.graphs(min_n=9, max_n=11, labels=("int",), shuffle=False), quick=30, thorough=300, cpu=60)
def colorings_larger(case):
    """chromatic number at least three and less than the number of vertices"""
    return check_coloring(case)


@st.composite
def planted_colorings(draw):
    """Graphs whose chromatic number is known by construction: a clique of k vertices, all edges between k classes."""
    k = draw(st.integers(2, 5))
    n = draw(st.integers(k, 16))
    cls = list(range(k)) + [draw(st.integers(0, k - 1)) for _ in range(n - k)]
    pairs = [(i, j) for j in range(n) for i in range(j) if cls[i] != cls[j]]
    bits = draw(st.lists(st.booleans(), min_size=len(pairs), max_size=len(pairs)))
    perm = draw(st.permutations(range(n)))
    edges = [(perm[i], perm[j], 1) for ((i, j), b) in zip(pairs, bits) if b or j < k]
    return ((list(range(n)), edges), k)


@law("C44", planted_colorings(), quick=120, thorough=2500, shards=2)
def colorings_planted(case):
    """at least 8 vertices and three colors"""
    lit, k = case
    check_coloring(lit, k)
    return k >= 3 and len(lit[0]) >= 8


def named_graphs(tier):
    out = []
    for n in range(3, 10 if tier == "quick" else 14):
        cyc = [(i, (i + 1) % n, 1) for i in range(n)]
        out.append(((list(range(n)), cyc), 2 + n % 2))
        out.append(((list(range(n + 1)), cyc + [(i, n, 1) for i in range(n)]), 3 + n % 2))
    # Mycielski graphs: no triangles, chromatic number 4 (Groetzsch)
    V, E = list(range(5)), [(i, (i + 1) % 5) for i in range(5)]
    for k in (4, 5)[:1 if tier == "quick" else 1]:
        n = len(V)
        E = E + [(u, v + n) for (u, v) in E] + [(v, u + n) for (u, v) in E] + [(i + n, 2*n) for i in range(n)]
        V = list(range(2*n + 1))
        out.append(((V, [(u, v, 1) for (u, v) in E]), k))
    return out


@law("C44", Each(named_graphs), cpu=120)
def colorings_named(case):
    """always"""
    lit, k = case
    check_coloring((list(lit[0]), list(lit[1])), k)
    return True


# ------------------------------------------------------------------ C45

def ham_paths(lit):
    adj = adjacency(lit)
    return [list(p) for p in itertools.permutations(lit[0]) if all(b in adj[a] for (a, b) in zip(p, p[1:]))]


def ham_count(nb):
    n = len(nb)
    cur = {(1 << i, i): 1 for i in range(n)}
    for _ in range(n - 1):
        new = {}
        for (S, i), c in cur.items():
            for j in range(n):
                if nb[i] >> j & 1 and not S >> j & 1:
                    new[(S | 1 << j, j)] = new.get((S | 1 << j, j), 0) + c
        cur = new
    return sum(cur.values())


def check_ham(lit, listing=True):
    g = call(mk_graph, lit)
    V, nb = masks(lit)
    want = ham_count(nb)
    for fn in (HP.number_of_hamiltonian_paths, HP.number_of_hamiltonian_paths_bits, HP.number_of_hamiltonian_paths_bits_con, HP.number_of_hamiltonian_paths5):
        same(call(fn, g), want, fn.__name__)
    if listing:
        full = sorted(ham_paths(lit))
        for fn in (HP.hamiltonian_paths, HP.hamiltonian_paths_con):
            got = call_list(fn, g, limit=want + 5)
            same(sorted(got), full, fn.__name__)
    same(call(g.edge_set), {(min(u, v), max(u, v)) for (u, v, w) in lit[1]}, "the graph is not modified")
    return want > 0 and len(lit[1]) < len(V)*(len(V) - 1)//2


@law("C45", gens.graphs(max_n=6, labels=("int", "str", "gap", "tup")), quick=300, thorough=5000, shards=3)
def hamiltonian_paths(case):
    """there is a Hamiltonian path and the graph is not complete"""
    return check_ham(case)


@law("C45", gens.graphs(min_n=4, max_n=7, labels=("int", "str"), connected=True), quick=150, thorough=2500, shards=3)
def hamiltonian_paths_connected(case):
    """there is a Hamiltonian path and the graph is not complete"""
    return check_ham(case)


@law("C45", Each(lambda tier: all_graphs(4 if tier == "quick" else 5)), cpu=60)
def hamiltonian_paths_small(case):
    """there is a Hamiltonian path and the graph is not complete"""
    return check_ham(case)


@law("C45", gens.graphs(min_n=7, max_n=9, labels=("int",), shuffle=False), quick=20, thorough=300)
def hamiltonian_counts_larger(case):
    """there is a Hamiltonian path and the graph is not complete"""
    return check_ham(case, listing=False)


@law("C45", gens.graphs(min_n=10, max_n=12, labels=("int",), connected=True, shuffle=False), quick=5, thorough=60, cpu=60)
def hamiltonian_counts_by_bits(case):
    """there is a Hamiltonian path and the graph is not complete"""
    g = call(mk_graph, case)
    V, nb = masks(case)
    want = ham_count(nb)
    for fn in (HP.number_of_hamiltonian_paths_bits, HP.number_of_hamiltonian_paths_bits_con):
        same(call(fn, g), want, fn.__name__)
    return want > 0 and len(case[1]) < len(V)*(len(V) - 1)//2


@law("C45", st.tuples(st.sampled_from(["path", "cycle", "pan", "split", "spider"]), st.integers(10, 90), st.integers(0, 10**6)), quick=40, thorough=300, cpu=60)
def hamiltonian_long(case):
    """more than 32 vertices"""
    kind, n, seed = case
    import random
    r = random.Random(seed)
    vs = list(range(n))
    r.shuffle(vs)
    path = [(a, b, 1) for (a, b) in zip(vs, vs[1:])]
    if kind == "path":
        E, want = path, 2
    elif kind == "cycle":
        E, want = path + [(vs[-1], vs[0], 1)], 2*n
    elif kind == "pan":
        # a cycle with one more vertex hanging from it
        E, want = path + [(vs[-1], vs[1], 1)], 4
    elif kind == "split":
        k = r.randrange(n - 1)
        E, want = path[:k] + path[k + 1:], 0
    else:
        # three legs
        k = r.randrange(2, n - 2)
        E, want = path[:-1] + [(vs[k - 1], vs[-1], 1)], 0
    g = call(mk_graph, (list(range(n)), E))
    for fn in (HP.number_of_hamiltonian_paths, HP.number_of_hamiltonian_paths_bits, HP.number_of_hamiltonian_paths_bits_con):
        same(call(fn, g), want, fn.__name__)
    if n < 50:
        for fn in (HP.hamiltonian_paths, HP.hamiltonian_paths_con):
            got = call_list(fn, g, limit=want + 5)
            same((len(got), len(set(map(tuple, got)))), (want, want), fn.__name__, "paths, distinct paths")
            adj = adjacency((list(range(n)), E))
            ensure(all(sorted(p) == list(range(n)) and all(b in adj[a] for (a, b) in zip(p, p[1:])) for p in got), fn.__name__, "lists something that is no path")
    return n > 32


@law("C45", st.tuples(gens.graphs(max_n=9, labels=("int", "str", "gap", "tup")), st.integers(0, 8), st.one_of(st.integers(0, 8), st.integers(9, 80)), st.integers(0, 511)), quick=200, thorough=3000)
def walk_counts(case):
    """at least 10 walks to some vertex"""
    lit, i, n, drop = case
    g = call(mk_graph, lit)
    adj = adjacency(lit)
    a = lit[0][i % len(lit[0])]
    allowed = {u for (k, u) in enumerate(lit[0]) if u == a or not drop >> k & 1}
    want = {u: int(u == a) for u in allowed}
    for _ in range(n):
        want = {u: sum(want[v] for v in adj[u] if v in allowed) for u in allowed}
    keep = set(allowed)
    same(dict(call(HP.walks, g, a, n, allowed)), want, "walks of length", n, "from", a, "inside", allowed)
    same(allowed, keep, "the set of allowed vertices is not modified")
    return max(want.values()) >= 10


@law("C45", Each(lambda tier: all_graphs(3)))
def hamiltonian_count_by_connected_complements(case):
    """there is a Hamiltonian path and the graph is not complete"""
    g = call(mk_graph, case)
    V, nb = masks(case)
    same(call(HP.number_of_hamiltonian_paths5_con, g), ham_count(nb), "number_of_hamiltonian_paths5_con")
    return ham_count(nb) > 0 and len(case[1]) < len(V)*(len(V) - 1)//2
