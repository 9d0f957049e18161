"""C35, C36, C41, C46: the graph object, its views, traversals and connectivity, degree sequences."""
import functools
import itertools
import math
import os
import tempfile

from hypothesis import strategies as st

from pbt import gens
from pbt.core import Each, call, call_list, ensure, is_int, law, must_raise, same
from pbt.gens import adjacency, all_graphs, components, edge_set, mk_graph

from rosemary.graphs import graphs as GR
from rosemary.graphs.graphs import Graph
from rosemary.graphs.algorithms import connectivity as CN
from rosemary.graphs.algorithms import degree_sequences as DS
from rosemary.graphs.algorithms import traversal as TR


# ------------------------------------------------------------------ C35
# Histories: a list of operations on up to 4 live graphs, each mirrored by a model
# {vertex: {neighbour: weight}}. All graphs are compared with all models after every operation.

def observe(g, m, when):
    """The whole public view of g against the model m."""
    same(call(g.vertex_set), set(m), when, "vertex_set")
    same(sorted(call(list, g)), sorted(m), when, "iteration over the graph")
    same(call(g.num_vertices), len(m), when, "num_vertices")
    want = {(u, v, w) for u in m for (v, w) in m[u].items() if u < v}
    same(call(g.edge_set, weights=True), want, when, "edge_set(weights=True)")
    same(call(g.num_edges), len(want), when, "num_edges")
    for u in m:
        same(dict(call(g.__getitem__, u)), m[u], when, "adjacency of", u)
        same(call(g.degree, u), len(m[u]), when, "degree of", u)


def m_copy(m):
    return {u: dict(d) for (u, d) in m.items()}


def m_del_vertex(m, u):
    if u in m:
        del m[u]
        for d in m.values():
            d.pop(u, None)


def m_del_edge(m, u, v):
    if u in m:
        m[u].pop(v, None)
    if v in m:
        m[v].pop(u, None)


def m_add_edge(m, u, v, w=1):
    m.setdefault(u, {})[v] = w
    m.setdefault(v, {})[u] = w


_V = st.integers(0, 6)
_W = st.sampled_from([1, 1, 2, 5, 0, -3, 0.5])
_VS = st.lists(_V, max_size=4)
_pair = st.tuples(_V, _V).filter(lambda t: t[0] != t[1])
_ops = st.one_of(
    st.tuples(st.just("add_vertex"), st.integers(0, 3), _V),
    st.tuples(st.just("add_vertices"), st.integers(0, 3), _VS),
    st.tuples(st.just("add_edge"), st.integers(0, 3), _pair),
    st.tuples(st.just("add_edge"), st.integers(0, 3), _pair),
    st.tuples(st.just("add_edge_w"), st.integers(0, 3), _pair, _W),
    st.tuples(st.just("add_edge_w"), st.integers(0, 3), _pair, _W),
    st.tuples(st.just("add_edge_tuple"), st.integers(0, 3), _pair, _W),
    st.tuples(st.just("add_edge_pair"), st.integers(0, 3), _pair),
    st.tuples(st.just("add_edges"), st.integers(0, 3), st.lists(st.one_of(_pair, st.tuples(_pair, _W).map(lambda t: t[0] + (t[1],))), max_size=5)),
    st.tuples(st.just("delete_vertex"), st.integers(0, 3), _V),
    st.tuples(st.just("delete_vertices"), st.integers(0, 3), _VS),
    st.tuples(st.just("delete_edge"), st.integers(0, 3), _pair, st.integers(0, 2)),
    st.tuples(st.just("copy"), st.integers(0, 3)),
    st.tuples(st.just("remove_vertex"), st.integers(0, 3), _V),
    st.tuples(st.just("remove_vertices"), st.integers(0, 3), _VS),
    st.tuples(st.just("remove_edge"), st.integers(0, 3), _pair, st.integers(0, 2)),
    st.tuples(st.just("remove_neighborhood"), st.integers(0, 3), _V),
    st.tuples(st.just("remove_closed_neighborhood"), st.integers(0, 3), _V),
    st.tuples(st.just("induced_subgraph"), st.integers(0, 3), _VS),
    st.tuples(st.just("complement"), st.integers(0, 3)),
    st.tuples(st.just("scribble"), st.integers(0, 3), _V),
)


def edge_args(pair, style):
    if style == 0:
        return pair
    if style == 1:
        return (pair,)
    return (pair + (99,),)


_LABELS = {"int": list(range(7)), "str": ["b", "a", "ab", "ba", "", "c", "aa"], "neg": [-3, 5, 0, -1, 10**20, 2, -10**20],
           "tup": [(0, 1), (1, 0), (), (0,), (2, 0, 1), (1,), (0, 0)]}


def relabel(op, names):
    def put(i, x):
        if i < 2:
            return x
        if op[0] == "delete_edge" or op[0] == "remove_edge":
            return tuple(names[v] for v in x) if i == 2 else x
        if op[0].startswith("add_edge_") and i == 3:
            return x
        if op[0] in ("add_vertices", "delete_vertices", "remove_vertices", "induced_subgraph"):
            return (list, tuple, set)[(op[1] + len(x)) % 3](names[v] for v in x)
        if op[0] == "add_edges":
            return [(names[e[0]], names[e[1]]) + tuple(e[2:]) for e in x]
        return tuple(names[v] for v in x) if isinstance(x, tuple) else names[x]
    return tuple(put(i, x) for (i, x) in enumerate(op))


@law("C35", st.tuples(st.lists(_ops, min_size=1, max_size=25), st.sampled_from(["str", "neg", "tup"])), quick=300, thorough=4000, shards=2)
def graph_histories_other_labels(case):
    """at least 4 operations after which two or more graphs are alive and one has an edge"""
    ops, kind = case
    return run_history([relabel(op, _LABELS[kind]) for op in ops])


@law("C35", st.lists(_ops, min_size=1, max_size=25), quick=700, thorough=8000, shards=3)
def graph_histories(case):
    """at least 4 operations after which two or more graphs are alive and one has an edge"""
    return run_history(case)


def run_history(case):
    live = [(call(Graph), {})]
    rich = 0
    for (i, op) in enumerate(case):
        name, h = op[0], op[1] % len(live)
        g, m = live[h]
        when = "after step {} {}:".format(i, op)
        new = None
        if name == "add_vertex":
            call(g.add_vertex, op[2])
            m.setdefault(op[2], {})
        elif name == "add_vertices":
            call(g.add_vertices, op[2])
            for u in op[2]:
                m.setdefault(u, {})
        elif name == "add_edge":
            call(g.add_edge, *op[2])
            m_add_edge(m, *op[2])
        elif name == "add_edge_w":
            call(g.add_edge, op[2][0], op[2][1], op[3])
            m_add_edge(m, op[2][0], op[2][1], op[3])
        elif name == "add_edge_tuple":
            call(g.add_edge, op[2] + (op[3],))
            m_add_edge(m, op[2][0], op[2][1], op[3])
        elif name == "add_edge_pair":
            call(g.add_edge, op[2])
            m_add_edge(m, *op[2])
        elif name == "add_edges":
            call(g.add_edges, op[2])
            for e in op[2]:
                m_add_edge(m, *e)
        elif name == "delete_vertex":
            call(g.delete_vertex, op[2])
            m_del_vertex(m, op[2])
        elif name == "delete_vertices":
            call(g.delete_vertices, op[2])
            for u in op[2]:
                m_del_vertex(m, u)
        elif name == "delete_edge":
            call(g.delete_edge, *edge_args(op[2], op[3]))
            m_del_edge(m, *op[2])
        elif name == "copy":
            new = (call(g.copy), m_copy(m))
        elif name == "remove_vertex":
            n = m_copy(m)
            m_del_vertex(n, op[2])
            new = (call(g.remove_vertex, op[2]), n)
        elif name == "remove_vertices":
            n = m_copy(m)
            for u in op[2]:
                m_del_vertex(n, u)
            new = (call(g.remove_vertices, op[2]), n)
        elif name == "remove_edge":
            n = m_copy(m)
            m_del_edge(n, *op[2])
            new = (call(g.remove_edge, *edge_args(op[2], op[3])), n)
        elif name in ("remove_neighborhood", "remove_closed_neighborhood"):
            if op[2] not in m:
                continue
            n = m_copy(m)
            for v in list(m[op[2]]) + ([op[2]] if "closed" in name else []):
                m_del_vertex(n, v)
            new = (call(getattr(g, name), op[2]), n)
        elif name == "induced_subgraph":
            keep = {u for u in op[2] if u in m}
            n = {u: {v: w for (v, w) in m[u].items() if v in keep} for u in keep}
            new = (call(g.induced_subgraph, list(keep)), n)
        elif name == "complement":
            n = {u: {v: 1 for v in m if v != u and v not in m[u]} for u in m}
            new = (call(g.complement), n)
        elif name == "scribble":
            # what a caller does to returned collections must not reach the graph
            call(g.vertex_set).add("x")
            call(g.vertices).append("x")
            call(g.edge_set).add(("x", "y"))
            call(g.edges).append(("x", "y"))
            if op[2] in m:
                call(g.neighbors, op[2]).add("x")
                call(g.closed_neighborhood, op[2]).discard(op[2])
        if new is not None:
            if len(live) < 4:
                live.append(new)
            else:
                live[(h + 1) % 4] = new
        for (k, (a, b)) in enumerate(live):
            observe(a, b, "{} graph {}:".format(when, k))
        if len(live) > 1 and any(d for (_, b) in live for d in b.values()):
            rich += 1
    return rich >= 4


# ------------------------------------------------------------------ C36

weights = st.sampled_from([1, 1, 2, 3, 7, 0.5, 0, -2, 10**20])


def check_views(lit):
    g = call(mk_graph, lit)
    adj = adjacency(lit)
    V = sorted(lit[0])
    n = len(V)
    E = sorted((min(u, v), max(u, v)) for (u, v, w) in lit[1])
    deg = {u: len(adj[u]) for u in V}
    same(call(g.vertices), V, "vertices()")
    same(call(g.vertices, reverse=True), V[::-1], "vertices(reverse=True)")
    same(call(g.edges), E, "edges()")
    same(call(g.edges, weights=True), [(u, v, adj[u][v]) for (u, v) in E], "edges(weights=True)")
    same(call(g.edge_set), set(E), "edge_set()")
    same(call(g.num_edges), len(E), "num_edges()")
    same(call(g.leaves), {u for u in V if deg[u] == 1}, "leaves()")
    same(call(g.maximum_degree), max(deg.values()), "maximum_degree()")
    same(call(g.minimum_degree), min(deg.values()), "minimum_degree()")
    same(deg.get(call(g.maximum_degree_vertex)), max(deg.values()), "degree of maximum_degree_vertex()")
    same(deg.get(call(g.minimum_degree_vertex)), min(deg.values()), "degree of minimum_degree_vertex()")
    same(call(g.total_degree), 2*len(E), "total_degree()")
    same(call(g.total_degree, V[::2]), sum(deg[u] for u in V[::2]), "total_degree of", V[::2])
    for u in V:
        same(call(g.neighbors, u), set(adj[u]), "neighbors of", u)
        same(call(g.neighborhood, u), set(adj[u]), "neighborhood of", u)
        same(call(g.closed_neighborhood, u), set(adj[u]) | {u}, "closed_neighborhood of", u)
        same(call(g.degree, u), deg[u], "degree of", u)
    if n >= 2:
        ensure(abs(call(g.density) - 2.0*len(E)/(n*(n - 1))) < 1e-9, "density()")
    for rev in (False, True):
        order = call(g.vertices, order="degree", reverse=rev)
        same(sorted(order), V, "vertices(order='degree') as a set")
        ds = [deg[u] for u in (order[::-1] if rev else order)]
        same(ds, sorted(ds), "degrees in the order 'degree', reverse =", rev)
        order = call(g.vertices, order="induced", reverse=rev)
        same(sorted(order), V, "vertices(order='induced') as a set")
        left = set(V)
        for u in (order[::-1] if rev else order):
            d = {x: sum(1 for y in adj[x] if y in left) for x in left}
            same(d[u], min(d.values()), "degree of the next vertex", u, "of the order 'induced' in the rest", left)
            left.discard(u)
    # matrices, in the order of the sorted vertices
    A = call(g.adjacency_matrix)
    D = call(g.degree_matrix)
    L = call(g.laplacian_matrix)
    for i in range(n):
        same([A[i][j] for j in range(n)], [int(V[j] in adj[V[i]]) for j in range(n)], "row", i, "of adjacency_matrix")
        same([D[i][j] for j in range(n)], [deg[V[i]] if i == j else 0 for j in range(n)], "row", i, "of degree_matrix")
        same([L[i][j] for j in range(n)], [deg[V[i]] if i == j else -int(V[j] in adj[V[i]]) for j in range(n)], "row", i, "of laplacian_matrix")
    C = call(g.complement)
    same(call(C.vertices), V, "vertices of the complement")
    same(call(C.edges), [e for e in itertools.combinations(V, 2) if e not in set(E)], "edges of the complement")
    CC = call(C.complement)
    same(call(CC.edges), E, "edges of the complement of the complement")
    for k in (1, 2, 3):
        S = V[::k][:max(1, n - 1)]
        for kind in (list, set, tuple):
            H = call(g.induced_subgraph, kind(S))
            same(call(H.vertices), S, "vertices of the subgraph induced by", S)
            same(call(H.edges, weights=True), [(u, v, adj[u][v]) for (u, v) in E if u in S and v in S], "edges of the subgraph induced by", S)
    same(call(g.edges, weights=True), [(u, v, adj[u][v]) for (u, v) in E], "edges() after all of this")
    return len(E) >= 2


@law("C36", gens.graphs(max_n=9, weights=weights, labels=("int", "str", "gap", "neg", "tup")), quick=500, thorough=10000, shards=2)
def derived_views(case):
    """at least two edges"""
    return check_views(case)


@law("C36", gens.seeded_graphs(12, 40), quick=50, thorough=400)
def derived_views_larger(case):
    """at least two edges"""
    return check_views(gens.seeded_graph(*case))


@law("C36", Each(lambda tier: all_graphs(4 if tier == "quick" else 5)), cpu=60)
def derived_views_small(case):
    """at least two edges"""
    return check_views(case)


def constructor_cases(tier):
    top = 12 if tier == "quick" else 40
    for n in range(0, top):
        for kind in ("complete", "coprime", "grid"):
            if kind != "grid" or n <= 8:
                yield (kind, n)
    for k in range(1, 5 if tier == "quick" else 6):
        yield ("odd", k)
    yield ("petersen", 0)
    yield ("empty", 0)


@law("C36", Each(constructor_cases), cpu=60)
def constructors(case):
    """the graph has an edge"""
    kind, n = case
    if kind == "complete":
        g = call(GR.complete_graph, n)
        same(call(g.vertices), list(range(n)), "vertices of complete_graph", n)
        same(call(g.edges), list(itertools.combinations(range(n), 2)), "edges of complete_graph", n)
        return n >= 2
    if kind == "coprime":
        g = call(GR.coprime_pairs_graph, n)
        same(call(g.vertices), list(range(1, n + 1)), "vertices of coprime_pairs_graph", n)
        same(call(g.edges), [(a, b) for (a, b) in itertools.combinations(range(1, n + 1), 2) if math.gcd(a, b) == 1], "edges of coprime_pairs_graph", n)
        return n >= 2
    if kind == "grid":
        g = call(GR.grid_graph, n)
        same(call(g.vertices), list(range(n*n)), "vertices of grid_graph", n)
        want = sorted([(i*n + j, i*n + j + 1) for i in range(n) for j in range(n - 1)] + [(i*n + j, i*n + n + j) for i in range(n - 1) for j in range(n)])
        same(call(g.edges), want, "edges of grid_graph", n)
        return n >= 2
    if kind == "odd":
        g = call(GR.odd_graph, n)
        V = ["".join(map(str, t)) for t in itertools.combinations(range(2*n - 1), n - 1)]
        same(call(g.vertices), sorted(V), "vertices of odd_graph", n)
        same(call(g.edges), [(a, b) for (a, b) in itertools.combinations(sorted(V), 2) if not set(a) & set(b)], "edges of odd_graph", n)
        return n >= 2
    if kind == "petersen":
        import networkx
        g = call(GR.petersen_graph)
        ensure(networkx.is_isomorphic(networkx.Graph(list(call(g.edges))), networkx.petersen_graph()), "petersen_graph is not the Petersen graph")
        return True
    g = call(Graph)
    same((call(g.vertices), call(g.edges), call(g.num_vertices), call(g.num_edges), call(g.total_degree)), ([], [], 0, 0, 0), "views of the empty graph")
    for f in (g.maximum_degree, g.minimum_degree, g.maximum_degree_vertex, g.minimum_degree_vertex):
        must_raise(ValueError, f)
    return False


@law("C36", st.tuples(st.integers(0, 40), st.integers(0, 100)), quick=120, thorough=3000)
def random_graphs(case):
    """at least 10 vertices and density strictly between 0 and 1"""
    n, pct = case
    d = pct/100
    g = call(GR.random_graph, n, d)
    same(call(g.vertices), list(range(n)), "vertices of random_graph", n)
    total = n*(n - 1)//2
    E = call(g.num_edges)
    if pct == 0:
        same(E, 0, "edges of random_graph", n, "with density 0")
    elif pct == 100:
        same(E, total, "edges of random_graph", n, "with density 1")
    else:
        sd = math.sqrt(total*d*(1 - d))
        ensure(abs(E - total*d) <= 9*sd + 9, "random_graph", case, "has", E, "edges, expected about", total*d)
    return n >= 10 and 0 < pct < 100


@law("C36", gens.graphs(min_n=2, max_n=8, labels=("int", "gap")), quick=150, thorough=2000)
def loaders(case):
    """at least two edges"""
    E = sorted((min(u, v), max(u, v)) for (u, v, w) in case[1])
    V = sorted({x for e in E for x in e})
    d = tempfile.mkdtemp(prefix="pbt-graph-")
    p1, p2 = os.path.join(d, "a"), os.path.join(d, "b")
    try:
        with open(p1, "w") as f:
            f.write("c a comment\np edge {} {}\n".format(len(V), len(E)))
            f.writelines("e {} {}\n".format(u, v) for (u, v, w) in case[1])
        with open(p2, "w") as f:
            f.writelines("{} {}\n".format(u, v) for (u, v, w) in case[1])
        for (fn, p) in ((GR.load_dimacs_graph, p1), (GR.load_graph, p2)):
            g = call(fn, p)
            same(call(g.vertices), V, fn.__name__, "vertices")
            same(call(g.edges), E, fn.__name__, "edges")
    finally:
        for p in (p1, p2):
            if os.path.exists(p):
                os.remove(p)
        os.rmdir(d)
    return len(E) >= 2


# ------------------------------------------------------------------ C41

def bfs_levels(adj, s):
    dist = {s: 0}
    cur = [s]
    while cur:
        nxt = []
        for u in cur:
            for v in adj[u]:
                if v not in dist:
                    dist[v] = dist[u] + 1
                    nxt.append(v)
        cur = nxt
    return dist


def is_dfs_order(adj, order):
    """order visits, at each step, a neighbour of the most recently visited vertex that still has an unvisited neighbour."""
    seen = set()
    path = []
    for (i, v) in enumerate(order):
        if i:
            while path and all(w in seen for w in adj[path[-1]]):
                path.pop()
            if not path or v not in adj[path[-1]] or v in seen:
                return False
        seen.add(v)
        path.append(v)
    return True


def tree_ok(adj, prev, s, comp, what):
    same(set(prev), comp, what, "vertices of the search tree")
    same(prev[s], None, what, "predecessor of the root")
    for v in comp:
        seen = {v}
        u = v
        while prev[u] is not None:
            ensure(prev[u] in adj[u], what, "tree edge", (u, prev[u]), "is not an edge")
            u = prev[u]
            ensure(u not in seen, what, "the predecessors of", v, "run in a cycle")
            seen.add(u)
        same(u, s, what, "root reached from", v)


def check_traversal(lit):
    g = call(mk_graph, lit)
    adj = adjacency(lit)
    comps = components(lit)
    where = {u: c for c in comps for u in c}
    deep = 0
    for s in lit[0][:4]:
        comp = where[s]
        dist = bfs_levels(adj, s)
        deep = max(deep, max(dist.values()))
        order = call_list(TR.breadth_first_search, g, s, limit=1000)
        same(sorted(order), sorted(comp), "breadth_first_search from", s, "visits")
        levels = [dist[v] for v in order]
        same(levels, sorted(levels), "levels in breadth_first_search order from", s)
        same(order[0], s, "first vertex of breadth_first_search")
        order = call_list(TR.depth_first_search, g, s, limit=1000)
        same(sorted(order), sorted(comp), "depth_first_search from", s, "visits")
        same(order[0], s, "first vertex of depth_first_search")
        ensure(is_dfs_order(adj, order), "depth_first_search from", s, "visits in the order", order, "which is not depth first")
        for depth in (0, 1, 2, 3, max(dist.values()) - 1, max(dist.values())):
            if depth < 0:
                continue
            order = call_list(TR.breadth_first_search, g, s, depth, limit=1000)
            same(sorted(order), sorted(v for v in comp if dist[v] <= depth), "breadth_first_search from", s, "to depth", depth, "visits")
            order = call_list(TR.depth_first_search, g, s, depth, limit=1000)
            same(len(set(order)), len(order), "depth_first_search to depth", depth, "repeats a vertex:", order)
            ensure(set(order) <= {v for v in comp if dist[v] <= depth} and {v for v in comp if dist[v] <= min(depth, 1)} <= set(order) and order[0] == s,
                   "depth_first_search from", s, "to depth", depth, "visits", order)
        prev = call(TR.breadth_first_search_tree, g, s)
        tree_ok(adj, prev, s, comp, "breadth_first_search_tree:")
        for v in comp:
            if v != s:
                same(dist[prev[v]], dist[v] - 1, "level of the predecessor of", v, "in the breadth first tree from", s)
        prev = call(TR.depth_first_search_tree, g, s)
        tree_ok(adj, prev, s, comp, "depth_first_search_tree:")
        anc = {}
        for v in comp:
            a = set()
            u = v
            while u is not None:
                a.add(u)
                u = prev[u]
            anc[v] = a
        for u in comp:
            for v in adj[u]:
                ensure(u in anc[v] or v in anc[u], "edge", (u, v), "joins two branches of the depth first tree", prev)
        got = call(CN.connected_component, g, s)
        same(sorted(got), sorted(comp), "connected_component of", s)
    got = call(CN.connected_components, g)
    same(sorted(sorted(c) for c in got), sorted(sorted(c) for c in comps), "connected_components")
    same(call(CN.is_connected, g), len(comps) <= 1, "is_connected")
    return deep >= 2 and len(lit[1]) >= 3


@law("C41", gens.graphs(max_n=11), quick=600, thorough=12000, shards=2)
def traversal(case):
    """a vertex at distance at least two, and at least three edges"""
    return check_traversal(case)


@law("C41", gens.seeded_graphs(20, 120), quick=70, thorough=800)
def traversal_larger(case):
    """a vertex at distance at least two, and at least three edges"""
    return check_traversal(gens.seeded_graph(*case))


@law("C41", Each(lambda tier: all_graphs(4 if tier == "quick" else 5)), cpu=60)
def traversal_small(case):
    """a vertex at distance at least two, and at least three edges"""
    return check_traversal(case)


@law("C41", Each(lambda tier: [("empty",)]))
def no_vertices(case):
    """never"""
    g = call(Graph)
    same(call(CN.connected_components, g), [], "connected_components of the empty graph")
    same(call(CN.is_connected, g), True, "is_connected of the empty graph")
    return False


# ------------------------------------------------------------------ C46

@functools.lru_cache(None)
def realizable(n):
    """Sorted degree sequences of all graphs on n vertices, by enumerating graphs."""
    pairs = list(itertools.combinations(range(n), 2))
    states = {(0,)*n}
    for (i, j) in pairs:
        new = set(states)
        for s in states:
            t = list(s)
            t[i] += 1
            t[j] += 1
            new.add(tuple(t))
        states = new
    return {tuple(sorted(s)) for s in states}


def gale_ryser_like(seq):
    """Decides by constructing: connect the largest remaining vertex to the largest others (networkx-independent)."""
    d = sorted(seq, reverse=True)
    while d and d[0] > 0:
        k = d.pop(0)
        if k > len(d) or d[k - 1] <= 0:
            return False
        d = sorted([x - 1 for x in d[:k]] + d[k:], reverse=True)
    return all(x == 0 for x in d)


def both(seq, want):
    keep = list(seq)
    same(call(DS.is_graphic, seq), want, "is_graphic", seq)
    same(call(DS.is_graphic_erdos_gallai, seq), want, "is_graphic_erdos_gallai", seq)
    same(seq, keep, "the sequence is not modified")
    same(call(DS.is_graphic, tuple(seq)), want, "is_graphic of the tuple", seq)


def small_sequences(tier):
    for n in range(0, 6 if tier == "quick" else 7):
        for seq in itertools.product(range(0, n + 2), repeat=n):
            if n <= 3 or all(a >= b for (a, b) in zip(seq, seq[1:])) or hash(seq) % 7 == 0:
                yield list(seq)


@law("C46", Each(small_sequences))
def degree_sequences_small(case):
    """even positive sum, no entry as large as the length"""
    n = len(case)
    both(case, tuple(sorted(case)) in realizable(n))
    return n > 0 and sum(case) > 0 and sum(case) % 2 == 0 and max(case) < n


@law("C46", gens.graphs(min_n=1, max_n=12), quick=300, thorough=6000)
def degree_sequence_of_a_graph(case):
    """at least two edges"""
    g = call(mk_graph, case)
    both([call(g.degree, u) for u in case[0]], True)
    return len(case[1]) >= 2


@law("C46", st.lists(st.integers(0, 14), max_size=16), quick=600, thorough=12000)
def degree_sequences(case):
    """even positive sum, no entry as large as the length"""
    want = gale_ryser_like(case)
    both(list(case), want)
    return len(case) > 0 and sum(case) > 0 and sum(case) % 2 == 0 and max(case) < len(case)


@law("C46", st.tuples(gens.seeded_graphs(8, 70), st.lists(st.tuples(st.integers(0, 69), st.sampled_from([-1, 1, 2, -2])), max_size=4)), quick=400, thorough=2500)
def degree_sequences_near_a_graph(case):
    """the sequence is not that of the graph it started from"""
    V, E = gens.seeded_graph(*case[0])
    d = [0]*len(V)
    for (u, v, w) in E:
        d[u] += 1
        d[v] += 1
    keep = list(d)
    for (i, x) in case[1]:
        d[i % len(d)] = max(0, d[i % len(d)] + x)
    both(d, gale_ryser_like(d))
    return sorted(d) != sorted(keep)


@law("C46", st.lists(st.integers(-3, 5), min_size=1, max_size=8), quick=150)
def negative_entries(case):
    """an entry is negative and the sum is even"""
    if min(case) >= 0:
        return False
    both(case, False)
    return sum(case) % 2 == 0
