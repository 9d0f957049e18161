"""C47-C49: memoization, independence of calls from the history, interleaved generators."""
import ast
import importlib
import itertools
import math
import os
import pickle
import random
import signal
import zlib

from hypothesis import strategies as st

from pbt import core, gens
from pbt.core import Violation, call, ensure, law, reject, same
from pbt.gens import mk_graph

from rosemary.utilities import cached_function

PK = "rosemary."
NT = PK + "number_theory."
CO = PK + "combinatorics."
GA = PK + "graphs.algorithms."


# ------------------------------------------------------------------ the functions of the package

small = st.integers(1, 60)
mid = st.integers(1, 2000)
signed = st.integers(-200, 200)
facs = st.lists(st.tuples(st.sampled_from([2, 3, 5, 7, 11, 13]), st.integers(1, 3)), max_size=3, unique_by=lambda t: t[0]).map(sorted)
n_or_fac = st.one_of(st.integers(1, 500), facs)
ODD_PRIMES = [p for p in range(3, 20000, 2) if all(p % q for q in range(3, math.isqrt(p) + 1, 2))]
odd_primes = st.one_of(st.sampled_from(ODD_PRIMES[:25]), st.sampled_from(ODD_PRIMES))
graph_lit = gens.graphs(min_n=2, max_n=6, labels=("int", "str"), shuffle=True).map(lambda g: ("graph", g))
conn_lit = gens.graphs(min_n=2, max_n=6, labels=("int",), connected=True, weights=st.integers(1, 9)).map(lambda g: ("graph", g))
tiny_graph = gens.graphs(min_n=2, max_n=5, labels=("int",)).map(lambda g: ("graph", g))
coefs = st.lists(st.integers(-9, 9), min_size=1, max_size=6)
words = st.lists(st.integers(0, 3), min_size=1, max_size=4)
sets_lit = st.lists(st.lists(st.integers(0, 4), min_size=1, max_size=3, unique=True), min_size=1, max_size=6)


def spread(options):
    """Every option about equally often: sampled_from of a long list prefers some of them by far."""
    return st.integers(0, 2**32).map(lambda r: options[zlib.crc32(b"%d" % r) % len(options)])


def t(*parts):
    return st.tuples(*parts)


def exact_cover_args(sets):
    target = sorted({x for s in sets for x in s})
    return (target, sets)


def interval(hi, width):
    return st.tuples(st.integers(1, hi), st.integers(1, width)).map(lambda p: (p[0], p[0] + p[1]))


def items(draw_n=5):
    return st.lists(st.tuples(st.integers(1, 9), st.integers(0, 9)), min_size=1, max_size=draw_n)


@st.composite
def crt_args(draw):
    moduli = draw(st.lists(st.sampled_from([2, 3, 5, 7, 11, 13]), min_size=1, max_size=4, unique=True))
    return ([(draw(st.integers(-20, 40)), m) for m in moduli],)


@st.composite
def matrix(draw):
    n = draw(st.integers(2, 5))
    m = [[0]*n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            m[i][j] = m[j][i] = draw(st.integers(1, 20))
        m[i][i] = ("inf",)
    return m


def crt_data(moduli):
    """The data of crt_preconditioning_data, computed here."""
    parts = [math.prod(moduli[:i]) for i in range(len(moduli))]
    return (len(moduli), moduli, parts, [1] + [pow(q, -1, m) for (q, m) in zip(parts[1:], moduli[1:])], math.prod(moduli))


# name -> (module, attribute, argument strategy, is it a generator)
TABLE = {}


def add(module, names, args, gen=False):
    for name in names.split():
        TABLE[module.split(".")[-1] + "." + name] = (module, name, args, gen)


core_ = NT + "core"
add(core_, "gcd lcm ext_gcd", t(signed, signed))
add(core_, "gcd_list lcm_list", t(st.lists(signed, min_size=1, max_size=5)))
add(core_, "power_mod", t(st.integers(0, 200), st.integers(0, 50), small))
add(core_, "chinese", crt_args())
add(core_, "crt_preconditioning_data", crt_args().map(lambda a: ([m for (r, m) in a[0]],)))
add(core_, "integer_sqrt bit_count", t(mid))
add(core_, "integer_nth_root", t(st.integers(1, 5), mid))
add(core_, "jacobi_symbol", t(signed, st.one_of(small, st.integers(1, 10**6)).map(lambda k: 2*k + 1)))
pr = NT + "primes.primality"
add(pr, "is_prime is_probable_prime next_prime next_probable_prime miller_rabin_deterministic", t(st.integers(5, 3000).map(lambda k: 2*k + 1)))
sv = NT + "primes.sieves"
add(sv, "primes eratosthenes1 eratosthenes2 luo chartres pritchard", t(st.integers(2, 400)))
add(sv, "primes_first_n", t(small))
add(sv, "prime_range", interval(3000, 300), gen=True)
pc = NT + "primes.prime_counting"
add(pc, "legendre meissel lehmer lmo prime_count prime_sum prime_sum2 pi_table", t(st.integers(8, 3000)))
add(pc, "lmo_bit", t(st.integers(20, 3000)))
fa = NT + "factorization.factorization"
add(fa, "factor", t(st.integers(1, 10**6)))
add(fa, "factor_back", t(facs))
add(fa, "divisors prime_divisors divisor_pairs unitary_divisors", t(st.integers(1, 2000)))
add(fa, "xdivisors", t(st.integers(1, 2000)), gen=True)
add(fa, "factored_range", interval(2000, 150), gen=True)
al = NT + "factorization.algorithms"
add(al, "trial_division lehman", t(st.integers(2, 5000)))
add(al, "fermat", t(st.integers(1, 500).map(lambda k: 2*k + 1)))
add(al, "pollard_rho pollard_rho_brent", t(st.integers(4, 2000).map(lambda k: 2*k)))
af = NT + "arithmetic_functions."
add(af + "functions", "euler_phi moebius_mu divisor_sigma divisor_tau carmichael_lambda", t(n_or_fac))
add(af + "functions", "factorial", t(st.integers(0, 60)))
add(af + "functions", "primorial", t(st.integers(1, 30)))
add(af + "inverse_functions", "euler_phi_inverse inverse_phi", t(st.integers(1, 200)))
add(af + "sieves", "euler_phi_list moebius_list sigma_list tau_list", t(st.integers(1, 120)))
add(af + "sieves", "moebius_range", interval(2000, 200), gen=True)
add(af + "sums", "euler_phi_sum euler_phi_weighted_sum moebius_sum sigma_sum", t(st.integers(1, 3000)))
zn = NT + "zn_arithmetic"
add(zn, "primitive_root fibonacci_primitive_roots", t(odd_primes))
add(zn, "sqrts_mod_p", t(signed, odd_primes))
add(zn, "sqrts_mod_n", t(signed, st.integers(2, 90)))
add(zn, "nth_roots_of_unity_mod_p nth_roots_of_minus1_mod_p", t(st.integers(1, 8), odd_primes))
add(zn, "linear_congruence", t(signed, signed, st.integers(2, 60)))
add(NT + "classification", "is_square is_power is_squarefree is_factorial", t(mid))
nonsquare = st.one_of(st.sampled_from([2, 3, 5, 6, 7, 8, 10, 13]), st.integers(2, 99).filter(lambda d: math.isqrt(d)**2 != d))
pl = NT + "diophantine_equations.pell"
add(pl, "pell_fundamental_solution", t(nonsquare))
add(pl, "pell_minimal_positive_solutions", t(nonsquare, st.integers(-30, 30).filter(bool)))
add(pl, "pell_solution_generator", t(nonsquare, st.integers(-30, 30).filter(bool), st.just(500)), gen=True)
add(NT + "misc", "bernoulli_list", t(st.integers(0, 12)))
add(NT + "misc", "maximize_divisors", t(mid))
add(NT + "misc", "largest_divisor", t(mid, st.integers(2000, 3000)))
add(NT + "arithmetic_progressions", "has_three_term_ap longest_ap", t(st.lists(st.integers(0, 30), min_size=3, max_size=8, unique=True).map(sorted)))
pa = PK + "algebra.polynomials.algorithms"
add(pa, "mul_classical mul_karatsuba list_add list_subtract", t(coefs, coefs))
add(pa, "power_jcp", t(coefs, st.integers(0, 4)))
ps = PK + "algebra.power_series.power_series"
add(ps, "delta_series eta_series", t(st.integers(1, 20)))
en = CO + "enumeration.enumeration"
add(en, "bell_number partition_list partition_number", t(st.integers(0, 25)))
add(en, "stirling_number2", t(st.integers(0, 12), st.integers(0, 12)))
add(en, "binomial", t(st.integers(0, 20), st.integers(0, 20)))
add(en, "necklaces", t(st.integers(1, 8), st.integers(1, 4)))
pm = CO + "generation.permutations"
add(pm, "phillips knuth_algorithm_l", t(words), gen=True)
add(CO + "generation.partitions", "integer_partitions", t(st.integers(1, 12)), gen=True)
add(CO + "generation.combinations", "combinations", t(st.integers(1, 7), st.integers(1, 4)).filter(lambda p: p[1] <= p[0]), gen=True)
add(CO + "generation.tuples", "n_tuples", t(st.lists(st.integers(1, 3), min_size=1, max_size=4)).map(lambda p: (len(p[0]), p[0])), gen=True)
add(CO + "recreational.alphametics", "solve", st.sampled_from([(["A", "B"], ["C"]), (["AB", "BA"], ["CD"]), (["I", "BB"], ["ILL"]), (["A", "B"], ["AC"]), (["AB", "B"], ["BA"]), (["B", "A"], ["C"]),
                                                      (["AA", "B"], ["BA"]), (["C"], ["A", "B"])]), gen=True)
ec = CO + "optimization.exact_cover"
add(ec, "algorithmx algorithm_dlx", sets_lit.map(exact_cover_args), gen=True)
add(ec, "langford_pairings domino_tilings", t(st.integers(1, 4)))
ks = CO + "optimization.knapsack"
add(ks, "depth_first dynamic_programming branch_and_bound_depth_first",
    st.tuples(items(), st.integers(0, 30)).map(lambda p: ([(v, w) for (w, v) in p[0]], p[1])))
gr = PK + "graphs.graphs"
add(gr, "complete_graph coprime_pairs_graph", t(st.integers(1, 7)))
add(gr, "petersen_graph", st.just(()))
add(GA + "traversal", "breadth_first_search depth_first_search", t(graph_lit, st.just(("vertex", 0))), gen=True)
add(GA + "traversal", "breadth_first_search_tree depth_first_search_tree", t(graph_lit, st.just(("vertex", 0))))
add(GA + "connectivity", "connected_components is_connected", t(graph_lit))
add(GA + "paths", "dijkstra dijkstra_buckets dijkstra_pairing_heap bellman_ford", t(conn_lit, st.just(("vertex", 0))))
add(GA + "paths", "dijkstra_iterator", t(conn_lit, st.just(("vertex", 0))), gen=True)
add(GA + "paths", "floyd_warshall", t(conn_lit))
add(GA + "paths", "dijkstra_bidirectional", t(conn_lit, st.just(("vertex", 0)), st.just(("vertex", 1))))
add(GA + "spanning_trees", "prim kruskal cheriton_tarjan", t(conn_lit))
add(GA + "spanning_trees", "gabow", t(conn_lit), gen=True)
add(GA + "steiner_trees", "distance_network_heuristic minimum_cost_paths_heuristic", t(conn_lit, st.just(("vertices", 2))))
add(GA + "cliques", "bron_kerbosch bron_kerbosch_binary tomita maximal_cliques", t(graph_lit), gen=True)
add(GA + "cliques", "pardalos pardalos_binary ostergard ostergard_binary maximum_clique", t(graph_lit))
add(GA + "independent_sets", "maximal_independent_sets", t(graph_lit), gen=True)
add(GA + "independent_sets", "branch_and_bound greedy culberson maximum_independent_set", t(graph_lit))
add(GA + "coloring", "dsatur greedy_sequential maxis branch_and_bound korman exact_coloring", t(graph_lit))
add(GA + "hamiltonian_paths", "hamiltonian_paths hamiltonian_paths_con", t(tiny_graph), gen=True)
add(GA + "hamiltonian_paths", "number_of_hamiltonian_paths number_of_hamiltonian_paths_bits number_of_hamiltonian_paths_bits_con number_of_hamiltonian_paths5", t(tiny_graph))
ts = CO + "optimization.tsp"
add(ts, "depth_first branch_and_bound", t(st.just([]), matrix()).map(lambda p: ([(i, i) for i in range(len(p[1]))], p[1])))



def kw(**parts):
    """Keyword arguments, passed after the positional ones; a part drawn as ("absent",) is left out."""
    names = sorted(parts)
    return st.tuples(*[parts[n] for n in names]).map(lambda vals: ("kw", tuple((n, v) for (n, v) in zip(names, vals) if v != ("absent",))))


def opt(strategy):
    return st.one_of(st.just(("absent",)), strategy)


signed_facs = st.tuples(st.booleans(), facs.filter(bool)).map(lambda p: [(-1, 1)]*p[0] + p[1])
add(core_, "inverse_mod", t(signed, st.integers(2, 60)))
add(core_, "integer_log", t(st.integers(2, 9), mid))
add(core_, "valuation", t(st.integers(2, 9), mid))
add(core_, "chinese_preconditioned", crt_args().map(lambda a: (a[0], crt_data([m for (r, m) in a[0]]))))
add(fa, "divisors_ prime_divisors_ divisor_pairs_ unitary_divisors_", t(kw(factorization=signed_facs)))
add(fa, "xdivisors_", t(kw(factorization=signed_facs)), gen=True)
add(fa, "factor_", t(st.integers(1, 10**6), kw(skip_power_detection=st.booleans())))
add(al, "smooth_factor", facs.filter(bool).map(lambda f: (math.prod(p**e for (p, e) in f), [-1, 2, 3, 5, 7, 11, 13])))
add(al, "cfrac", t(st.sampled_from([7*11, 101*103, 9973*10007, 65537*257, 1009*2003*7])))
add(al, "pollard_p_minus_1", t(st.integers(50, 5000).map(lambda k: 2*k + 1), kw(limit=st.integers(5, 60))))
add(pr, "solovay_strassen miller_rabin", t(st.integers(5, 3000).map(lambda k: 2*k + 1), st.integers(2, 9)))
add(pr, "lucas_lehmer", t(st.sampled_from([3, 5, 7, 11, 13, 17, 19, 23, 31, 61])))
add(zn, "is_primitive_root", t(st.integers(1, 60), st.sampled_from([(7, 6, [2, 3]), (9, 6, [3, 2]), (11, 10, [5, 2]), (31, 30, [2, 3, 5])])).map(
    lambda p: (p[0], p[1][0], ("kw", (("phi", p[1][1]), ("phi_divisors", p[1][2]))))))
add(zn, "primitive_root_", st.sampled_from([(7, [(7, 1)], 6, [3, 2]), (9, [(3, 2)], 6, [3, 2]), (31, [(31, 1)], 30, [5, 3, 2]), (50, [(2, 1), (5, 2)], 20, [5, 2])]).map(
    lambda p: (p[0], ("kw", (("n_factorization", p[1]), ("phi", p[2]), ("phi_divisors", p[3]))))))
add(zn, "sqrts_mod_n_", st.tuples(signed, facs.filter(bool)).map(
    lambda p: (p[0], math.prod(q**e for (q, e) in p[1]), ("kw", (("n_factorization", p[1]),)))))
add(zn, "quadratic_congruence", st.tuples(st.sampled_from([1, 5, 7]), signed, signed, st.sampled_from([(15, [(3, 1), (5, 1)]), (9, [(3, 2)]), (77, [(7, 1), (11, 1)]), (8, [(2, 3)])])).map(
    lambda p: ([1 if p[3][0] % p[0] == 0 else p[0], p[1], p[2]], p[3][0], ("kw", (("n_factorization", p[3][1]),)))))
add(zn, "multiplicative_order", t(st.integers(2, 400), st.integers(2, 400)).filter(lambda p: math.gcd(*p) == 1))
add(zn, "is_primitive_root_", t(st.integers(1, 60), st.one_of(small, mid).filter(lambda n: n > 1)))
add(zn, "primitive_root__", t(st.sampled_from([2, 3, 4, 5, 6, 7, 9, 10, 11, 13, 14, 18, 22, 25, 26, 27, 34, 38, 49, 50, 54, 81, 98, 125, 169, 243, 250, 343])))
add(zn, "multiplicative_order_", st.sampled_from([(3, 7), (2, 11), (5, 23), (2, 101), (2, 101, ("kw", (("phi", 100), ("phi_divisors", [1, 2, 4, 5, 10, 20, 25, 50, 100]))))]))
add(zn, "discrete_log", t(st.one_of(st.sampled_from(ODD_PRIMES[:30]), st.sampled_from(ODD_PRIMES[:200])), st.integers(2, 2000), st.integers(0, 2000)).map(
    lambda p: (2 + p[1] % (p[0] - 2), pow(2 + p[1] % (p[0] - 2), p[2], p[0]), p[0])))
add(NT + "classification", "is_square_ is_squarefree_", t(facs.filter(bool)))
add(NT + "classification", "is_power_", t(facs.filter(bool), kw(k=opt(st.integers(1, 4)))))
add(NT + "arithmetic_progressions", "has_three_term_ap_", t(st.lists(st.integers(0, 30), min_size=3, max_size=8, unique=True).map(sorted), kw(indices=st.booleans())))
unit_series = st.lists(st.integers(-5, 5), min_size=3, max_size=8).map(lambda a: [1] + a)
pws = PK + "algebra.power_series.power_series"
add(pws, "ps_invert", t(unit_series))
add(pws, "ps_power", t(unit_series, st.integers(0, 4)))
add(pws, "ps_mult_classical ps_mult_karatsuba", st.integers(1, 8).flatmap(lambda n: t(*[st.lists(st.integers(-9, 9), min_size=n, max_size=n)]*2)))
add(en, "multinomial", t(st.lists(st.integers(0, 5), min_size=1, max_size=4)).map(lambda p: (sum(p[0]), p[0])))
add(en, "bipartitions", t(st.integers(0, 6), st.integers(0, 6)))
add(en, "rth_power_partition_number", t(st.integers(1, 4), st.integers(0, 10)))
add(en, "number_of_domino_tilings", t(st.integers(1, 5), st.integers(1, 5)))
add(en, "triomino_tilings", t(st.integers(1, 4), st.integers(2, 4)))
add(en, "necklaces_", t(st.integers(1, 2).flatmap(lambda m: st.lists(st.integers(1, 4).map(lambda x: x*m), min_size=1, max_size=5))).map(
    lambda p: (sum(p[0]), len(p[0]), ("kw", (("weights", p[0]),)))))
add(pm, "knuth_algorithm_l_variations", t(words), gen=True)
add(pm, "knuth_algorithm_l_rvariations", words.flatmap(lambda w: t(st.just(w), st.integers(1, len(w)))), gen=True)
add(CO + "generation.partitions", "integer_partitions_", t(st.integers(1, 10), kw(
    parts=opt(st.lists(st.integers(1, 7), min_size=1, max_size=5, unique=True)), distinct=opt(st.booleans()), num_parts=opt(st.integers(1, 5)))), gen=True)
add(ec, "langford_ints domino_ints latin_square_ints", t(st.integers(1, 3)))
PUZZLE = "530070000600195000098000060800060003400803001700020006060000280000419005000080079"
add(ec, "parse sudoku_dlx", t(st.just(PUZZLE)))
add(ec, "sudoku_vectors to_string", t(st.just([[int(c) for c in PUZZLE[9*i:9*i + 9]] for i in range(9)])))
points = st.lists(st.tuples(st.integers(0, 20), st.integers(0, 20)), min_size=4, max_size=6, unique=True)
add(ts, "euclidean_distance_matrix depth_first_ branch_and_bound_ farthest_insertion two_opt steepest_ascent_two_opt", t(points))
add(ts, "random_two_opt", t(st.permutations(range(6)).map(list)))
add(ts, "farthest_insertion_ two_opt_ steepest_ascent_two_opt_", t(st.just([]), matrix().filter(lambda m: len(m) >= 4)).map(
    lambda p: ([(i, i) for i in range(len(p[1]))], p[1])))
add(ts, "cost", matrix().map(lambda m: (list(range(len(m))), m, len(m))))
add(ks, "simulated_annealing", st.tuples(items(), st.integers(0, 30)).map(lambda p: ([(v, w) for (w, v) in p[0]], p[1])))
add(GA + "degree_sequences", "is_graphic is_graphic_erdos_gallai", t(st.lists(st.integers(0, 5), min_size=1, max_size=6)))
add(GA + "cliques", "maximum_weight_clique", t(graph_lit))
add(GA + "connectivity", "connected_component", t(graph_lit, st.just(("vertex", 0))))
add(GA + "coloring", "greedy_sequential_", t(graph_lit, kw(vertices=st.just(("vertices", 99)), passes=st.integers(1, 2), classes=st.booleans())))
add(GA + "hamiltonian_paths", "number_of_hamiltonian_paths5_con", t(tiny_graph))
add(gr, "random_graph", t(st.integers(1, 7), st.sampled_from([0.3, 0.7])))
add(gr, "grid_graph", t(st.integers(1, 4)))
add(gr, "odd_graph", t(st.integers(2, 3)))


# objects with methods that enumerate or compute: the object is built once for each call, or shared between two
def partial_quotients(q):
    return q.partial_quotients()


def convergents(q):
    return q.convergents()


def cover_solutions(P):
    return P.solutions()


def cover_count(P):
    return P.number_of_solutions()


def make_object(kind, data):
    if kind == "quadratic":
        return importlib.import_module(NT + "continued_fractions").QuadraticIrrational(*data)
    return importlib.import_module(ec).ExactCoverBinary(list(data))


HERE = "pbt.props.history"
quad = t(nonsquare, st.integers(-6, 6), st.integers(1, 6)).map(lambda d: (("object", "quadratic", d),))
cover = st.lists(st.integers(1, 63), min_size=1, max_size=14).map(lambda v: (("object", "cover", tuple(v)),))
add(HERE, "partial_quotients convergents", quad, gen=True)
add(HERE, "cover_solutions", cover, gen=True)
add(HERE, "cover_count", cover)

# Where the answer is not unique and drawn at random, what is compared is what does not depend on the draw.
VARIES = {
    "spanning_trees.cheriton_tarjan": lambda r: (r[0], len(r[1])),
    "independent_sets.greedy": lambda r: len(r),
    "graphs.random_graph": lambda g: sorted(g.vertices()),
    "knapsack.simulated_annealing": lambda r: len(r[1]),
    "tsp.random_two_opt": lambda p: sorted(p),
    "algorithms.pollard_rho": lambda d: type(d).__name__ in ("int", "NoneType"),
    "algorithms.pollard_rho_brent": lambda d: type(d).__name__ in ("int", "NoneType"),
    "algorithms.cfrac": lambda d: type(d).__name__ in ("int", "NoneType"),
}
GENERATORS = sorted(k for k in TABLE if TABLE[k][3])
LIMIT = 120


class Keywords(dict):
    pass


def function(name):
    module, attr, _, _ = TABLE[name]
    return getattr(importlib.import_module(module), attr.rstrip("_"))


def build(lit):
    """The arguments for one call from their literal form."""
    g = None
    out = []
    for a in lit:
        if isinstance(a, tuple) and len(a) == 2 and a[0] == "kw":
            out.append(Keywords((k, sorted(g.vertices())[:v[1]] if isinstance(v, tuple) and v[:1] == ("vertices",) else thaw(v)) for (k, v) in a[1]))
        elif isinstance(a, tuple) and len(a) == 2 and a[0] == "graph":
            g = mk_graph(a[1])
            out.append(g)
        elif isinstance(a, tuple) and len(a) == 3 and a[0] == "object":
            out.append(make_object(a[1], a[2]))
        elif isinstance(a, tuple) and len(a) == 2 and a[0] == "vertex":
            out.append(sorted(g.vertices())[a[1]])
        elif isinstance(a, tuple) and len(a) == 2 and a[0] == "vertices":
            out.append(sorted(g.vertices())[:a[1]])
        else:
            out.append(thaw(a))
    return out


def thaw(a):
    if a == ("inf",):
        return math.inf
    if isinstance(a, list):
        return [thaw(x) for x in a]
    return a


def plain(x):
    """A comparable copy of a result or an argument."""
    if isinstance(x, dict):
        return ("dict", sorted(((plain(k), plain(v)) for (k, v) in x.items()), key=repr))
    if isinstance(x, (set, frozenset)):
        return ("set", sorted((plain(v) for v in x), key=repr))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [plain(v) for v in x])
    if hasattr(x, "edge_set") and hasattr(x, "vertices"):
        return ("Graph", sorted(map(repr, x.vertices())), sorted(repr((min(e), max(e), x[e[0]][e[1]])) for e in x.edge_set()))
    if x is None or isinstance(x, (int, float, str, complex)):
        return x
    return type(x).__name__ if type(x).__repr__ is object.__repr__ else repr(x)


def spoil(x, depth=0):
    """Changes a returned mutable object in place, as a caller is free to do."""
    if isinstance(x, list):
        for y in list(x):
            if depth < 2:
                spoil(y, depth + 1)
        if x:
            x[0] = -77
        x.append(-99)
    elif isinstance(x, dict):
        for k in list(x):
            if depth < 2:
                spoil(x[k], depth + 1)
            x[k] = -77
    elif isinstance(x, set):
        x.clear()
    elif isinstance(x, tuple):
        for y in x:
            if depth < 2:
                spoil(y, depth + 1)
    elif hasattr(x, "delete_vertices") and depth < 2:
        x.delete_vertices(list(x.vertices()))


def invoke(fn, args):
    if args and isinstance(args[-1], Keywords):
        return fn(*args[:-1], **args[-1])
    return fn(*args)


def run_one(name, args, seed):
    """('ok', plain result, the objects returned) or ('raise', type)."""
    random.seed(seed)
    try:
        got = invoke(function(name), args)
        if hasattr(got, "__next__"):
            objs = []
            shown = []
            for x in itertools.islice(got, LIMIT):
                shown.append(plain(x))
                objs.append(x)
            return ("ok", ("iter", shown)), objs
        return ("ok", plain(VARIES[name](got) if name in VARIES else got)), got
    except Exception as e:
        return ("raise", type(e).__name__), None


def in_child(fn, *args):
    """Runs fn in a forked child, whose state of the package is that of this process (untouched by earlier cases)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            signal.setitimer(signal.ITIMER_VIRTUAL, 20)
            data = pickle.dumps(("ok", fn(*args)))
        except core.Hang:
            data = pickle.dumps(("hang", None))
        except BaseException as e:
            data = pickle.dumps(("error", repr(e)))
        with os.fdopen(w, "wb") as f:
            f.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    kind, val = pickle.loads(data)
    if kind == "error":
        raise RuntimeError(val)
    if kind == "hang":
        raise Violation("no result after 20 s of CPU time")
    return val


def history(calls):
    out = []
    for (i, (name, lit, spoiled)) in enumerate(calls):
        args = build(lit)
        before = [plain(a) for a in args]
        res, obj = run_one(name, args, 5)
        after = [plain(a) for a in args]
        out.append((res, before, after))
        if spoiled:
            spoil(obj)
    return out


def alone(name, lit):
    return run_one(name, build(lit), 5)[0]


# the arguments may be shared between consecutive calls: 'graph' arguments are rebuilt for each call

# functions whose list arguments carry meaning in their order, so that a shuffled argument may be outside the domain
ORDERED = ("tsp.", "algorithms.smooth_factor", "zn_arithmetic.quadratic", "zn_arithmetic.multiplicative", "core.chinese_preconditioned",
           "power_series.", "exact_cover.to_string", "exact_cover.sudoku")


@st.composite
def call_histories(draw):
    pool = draw(st.lists(spread(sorted(TABLE)), min_size=1, max_size=3, unique=True))
    out = []
    seen = []
    for _ in range(draw(st.integers(2, 8))):
        if seen and draw(st.booleans()):
            name, args = draw(st.sampled_from(seen))
            how = draw(st.sampled_from(["same", "shuffle", "swap"]))
            if how == "shuffle" and not name.startswith(ORDERED):
                args = shuffled(draw, args)
            elif how == "swap":
                # the same arguments for another function of the pool, where it takes arguments of that kind
                other = draw(st.sampled_from(pool))
                if TABLE[other][2] is TABLE[name][2]:
                    name = other
        else:
            name = draw(st.sampled_from(pool))
            args = draw(TABLE[name][2])
        seen.append((name, args))
        out.append((name, args, draw(st.booleans())))
    return out


def shuffled(draw, a):
    """The same values in another order: lists within the arguments, vertices and edges of graphs."""
    if isinstance(a, list):
        if len(a) < 2:
            return a
        return list(draw(st.permutations(a)))
    if isinstance(a, tuple) and len(a) == 2 and a[0] == "graph":
        return ("graph", (shuffled(draw, a[1][0]), shuffled(draw, a[1][1])))
    if isinstance(a, tuple):
        return tuple(shuffled(draw, x) for x in a)
    return a


# ------------------------------------------------------------------ C47

@law("C47", st.lists(st.tuples(st.integers(0, 2), st.lists(st.integers(-3, 3), max_size=3)), min_size=1, max_size=40), quick=800)
def memoized_functions(calls):
    """at least two repeated calls, and two functions called"""
    counts = [{}, {}, {}]

    def make(i, body):
        def f(*args):
            counts[i][args] = counts[i].get(args, 0) + 1
            return body(*args)
        return f
    bodies = [lambda *a: sum(a)*3 + len(a), lambda *a: list(a), lambda *a: None if not a else a[-1]]
    plain_fs = [make(i, b) for (i, b) in enumerate(bodies)]
    plain_fs[0].__name__ = "weighted"
    plain_fs[0].__doc__ = "a docstring"
    memo = [call(cached_function, f) for f in plain_fs]
    same((memo[0].__name__, memo[0].__doc__), ("weighted", "a docstring"), "name and docstring of the memoized function")
    for (i, args) in calls:
        same(call(memo[i], *args), bodies[i](*args), "memoized function", i, "at", args)
    for c in counts:
        for (args, k) in c.items():
            same(k, 1, "evaluations at", args)
    n = [len({tuple(a) for (j, a) in calls if j == i}) for i in range(3)]
    same([len(c) for c in counts], n, "distinct arguments evaluated")
    return len(calls) - sum(n) >= 2 and sum(1 for k in n if k) >= 2


@law("C47", st.tuples(st.integers(0, 25), st.lists(st.integers(0, 25), max_size=10)), quick=200)
def memoized_recursion(case):
    """the first argument is above 10"""
    n, later = case
    count = [0]

    @cached_function
    def fib(k):
        count[0] += 1
        return k if k < 2 else fib(k - 1) + fib(k - 2)

    def ref(k):
        a, b = 0, 1
        for _ in range(k):
            a, b = b, a + b
        return a
    same(call(fib, n), ref(n), "memoized Fibonacci number", n)
    ensure(count[0] <= n + 1, "memoized recursion evaluated", count[0], "times for", n)
    for k in later:
        same(call(fib, k), ref(k), "memoized Fibonacci number", k)
    ensure(count[0] <= max([n] + later) + 1, "memoized recursion evaluated", count[0], "times")
    bad = []

    @cached_function
    def fails(k):
        bad.append(k)
        if len(bad) == 1:
            raise KeyError(k)
        return k
    core.must_raise(KeyError, fails, n)
    same(call(fails, n), n, "a memoized function after an exception")
    return n > 10


# ------------------------------------------------------------------ C48

_alone_cache = {}


@law("C48", call_histories(), quick=450, thorough=6000, shards=6)
def calls_do_not_depend_on_history(calls):
    """a call is repeated, or follows one whose result the caller has changed"""
    got = in_child(history, calls)
    core.CALLS[0] += 1
    for (i, ((name, lit, _), (res, before, after))) in enumerate(zip(calls, got)):
        same(after, before, name, "changes its arguments, call", i, "of", calls)
        key = repr((name, lit))
        if key not in _alone_cache:
            if len(_alone_cache) > 20000:
                _alone_cache.clear()
            _alone_cache[key] = in_child(alone, name, lit)
        want = _alone_cache[key]
        same(res, want, "call", i, name, "after the calls before it, against the call alone")
    keys = [repr(c[:2]) for c in calls]
    return len(set(keys)) < len(keys) or any(c[2] for c in calls[:-1])


HEAVY = (GA, CO + "optimization", PK + "graphs.graphs")


@st.composite
def call_orders(draw):
    """Many calls of one or two functions with different arguments."""
    pool = draw(st.lists(spread(sorted(TABLE)), min_size=1, max_size=2, unique=True))
    if draw(st.booleans()):
        # functions of one module, or called alike, are those likely to share a state
        near = [k for k in sorted(TABLE) if TABLE[k][0] == TABLE[pool[0]][0]]
        pool = [pool[0], draw(st.sampled_from(near))]
    heavy = any(TABLE[k][0].startswith(HEAVY) for k in pool)
    k = draw(st.sampled_from([2, 5, 8] if heavy else [2, 8, 25, 60]))
    calls = []
    for name in pool:
        calls += [(name, a) for a in draw(st.lists(TABLE[name][2], min_size=1, max_size=k//len(pool) + 1, unique_by=repr) if k < 8 else
                                          st.lists(TABLE[name][2], min_size=k//len(pool), max_size=k//len(pool) + 1))]
    return draw(st.permutations(calls)) if len(calls) < 12 else calls


def in_order(calls, order):
    return {i: run_one(calls[i][0], build(calls[i][1]), 5)[0] for i in order}


@law("C48", call_orders(), quick=500, thorough=8000, shards=6)
def order_of_calls(calls):
    """a sequence of calls made in one order and in the opposite order gives every call the same result;
    at least two calls with different arguments"""
    n = len(calls)
    here = in_child(in_order, calls, list(range(n)))
    core.CALLS[0] += 1
    there = in_child(in_order, calls, list(range(n))[::-1])
    for i in range(n):
        if here[i] != there[i]:
            same(in_child(alone, *calls[i]), here[i], "call", i, calls[i], "after the calls before it, against the call alone")
            same(in_child(alone, *calls[i]), there[i], "call", i, calls[i], "after the calls listed after it, against the call alone")
    return len({repr(c) for c in calls}) > 1


LIGHT = sorted(k for k in TABLE if not TABLE[k][0].startswith(HEAVY) and "alphametics" not in k)


@st.composite
def many_calls(draw):
    """About a hundred calls of one function."""
    name = draw(spread(LIGHT))
    n = draw(st.sampled_from([40, 100, 100]))
    return [(name, a) for a in draw(st.lists(TABLE[name][2], min_size=n, max_size=n))]


@law("C48", many_calls(), quick=400, thorough=4000, shards=6)
def order_of_many_calls(calls):
    """about a hundred calls of one function in one order and in the opposite order; at least ten different ones"""
    order_of_calls(calls)
    return len({repr(c) for c in calls}) >= 10


@st.composite
def single_calls(draw):
    name = draw(spread(sorted(TABLE)))
    return (name, draw(TABLE[name][2]), draw(st.booleans()))


@law("C48", single_calls(), quick=4000, thorough=60000, shards=4)
def repeated_call(case):
    """one function called twice with equal arguments, the first result possibly changed in between; an argument or a result is a container"""
    name, lit, spoiled = case
    args = build(lit)
    before = [plain(a) for a in args]
    first, obj = run_one(name, args, 7)
    core.CALLS[0] += 1
    same([plain(a) for a in args], before, name, "changes its arguments", lit)
    if spoiled:
        spoil(obj)
    again = run_one(name, build(lit), 7)[0]
    same(again, first, name, "called again with the same arguments", lit)
    return any(isinstance(a, (list, dict, set, tuple)) or hasattr(a, "edge_set") for a in args + [obj])


ON_GRAPHS = sorted(k for (k, v) in TABLE.items() if v[0].startswith(GA) and not k.endswith("_") and "degree_sequences" not in k)


@st.composite
def changing_graphs(draw):
    """Calls on one graph object that is changed between them."""
    lit = draw(gens.graphs(min_n=3, max_n=6, labels=("int",), connected=True, weights=st.integers(1, 9)))
    pool = draw(st.lists(spread(ON_GRAPHS), min_size=1, max_size=3, unique=True))
    names = sorted(lit[0])
    have = {frozenset(e[:2]): e[2] for e in lit[1]}
    steps = []
    for _ in range(draw(st.integers(2, 7))):
        if steps and steps[-1][0] == "call" and draw(st.integers(0, 3)):
            # an edge is added, reweighted, or removed unless that might disconnect the graph
            u, v = draw(st.permutations(names))[:2]
            e = frozenset((u, v))
            if e in have and draw(st.booleans()):
                rest = [(min(f), max(f), 1) for f in have if f != e]
                if len(gens.components((names, rest))) == 1:
                    steps.append(("remove", u, v))
                    del have[e]
                    continue
            w = draw(st.integers(1, 9))
            steps.append(("add", u, v, w))
            have[e] = w
        else:
            steps.append(("call", draw(st.sampled_from(pool))))
    steps.append(("call", draw(st.sampled_from(pool))))
    return (lit, steps)


def graph_call(g, name):
    names = sorted(g.vertices())
    args = [g]
    for kind in GRAPH_ARGS[name]:
        args.append(names[0] if kind == ("vertex", 0) else names[1] if kind == ("vertex", 1) else names[:2])
    return run_one(name, args, 5)[0]


GRAPH_ARGS = {}
for _k in ON_GRAPHS:
    _n = _k.split(".")[1]
    GRAPH_ARGS[_k] = ([("vertex", 0), ("vertex", 1)] if _n == "dijkstra_bidirectional" else
                      [("vertices", 2)] if "heuristic" in _n else
                      [("vertex", 0)] if (_n.startswith(("dijkstra", "bellman", "breadth", "depth")) or _n == "connected_component") else [])


def run_changing(lit, steps, only=None):
    g = mk_graph(lit)
    out = []
    for (i, s) in enumerate(steps):
        if s[0] == "add":
            g.add_edge(s[1], s[2], s[3])
        elif s[0] == "remove":
            g.remove_edge(s[1], s[2])
        elif only is None or i == only:
            out.append((i, graph_call(g, s[1])))
    return out


@law("C48", changing_graphs(), quick=250, thorough=4000, shards=4)
def calls_see_the_current_graph(case):
    """calls on a graph object changed in between give what they give on a graph built the same way and not used before;
    the graph changed between two calls"""
    lit, steps = case
    got = in_child(run_changing, lit, steps)
    core.CALLS[0] += 1
    for (i, res) in got:
        want = in_child(run_changing, lit, steps, i)[0][1]
        same(res, want, "call", i, steps[i][1], "on a graph used before, against the same graph not used before")
    kinds = "".join(s[0][0] for s in steps)
    return "c" in kinds and any(x != "c" for x in kinds[kinds.index("c"):kinds.rindex("c")])


# ------------------------------------------------------------------ C49

@st.composite
def interleavings(draw):
    n = draw(st.integers(2, 3))
    specs = []
    for _ in range(n):
        if specs and draw(st.booleans()):
            specs.append(specs[-1])
        else:
            name = specs[-1][0] if specs and draw(st.booleans()) else draw(spread(GENERATORS))
            specs.append((name, draw(TABLE[name][2])))
    share = draw(st.booleans())
    steps = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(1, 4)), min_size=1, max_size=14))
    if draw(st.integers(0, 2)) == 0:
        # ordinary calls between the steps, of functions of the same modules or any others
        near = [k for k in sorted(TABLE) if not TABLE[k][3] and TABLE[k][0] in [TABLE[s[0]][0] for s in specs]]
        for _ in range(draw(st.integers(1, 3))):
            name = draw(st.sampled_from(near if near and draw(st.booleans()) else sorted(k for k in TABLE if not TABLE[k][3])))
            steps.insert(draw(st.integers(0, len(steps))), (name, draw(TABLE[name][2])))
    close = draw(st.lists(st.integers(0, n - 1), max_size=1))
    return (specs, share, steps, close)


@law("C49", interleavings(), quick=700, thorough=12000, shards=4)
def interleaved_generators(case):
    """two generators are both advanced, switching between them at least twice"""
    specs, share, steps, close = case
    want = []
    for (name, lit) in specs:
        random.seed(3)
        fn = function(name)
        args = build(lit)
        want.append(call(lambda: [plain(x) for x in itertools.islice(invoke(fn, args), LIMIT)]))
    built = {}
    its = []
    for (name, lit) in specs:
        key = repr(lit)
        if share and key in built:
            args = built[key]
        else:
            args = built[key] = build(lit)
        random.seed(3)
        its.append(call(lambda: iter(invoke(function(name), args))))
    before = {k: [plain(a) for a in v] for (k, v) in built.items()}
    got = [[] for _ in specs]

    def advance(i, k):
        for x in itertools.islice(its[i], k):
            got[i].append(plain(x))
    turns = 0
    last = None
    for (i, k) in steps:
        if isinstance(i, str):
            run_one(i, build(k), 5)
            continue
        k = min(k, LIMIT - len(got[i]))
        call(advance, i, k)
        same(got[i], want[i][:len(got[i])], "generator", i, specs[i], "interleaved with the others, against alone")
        if last is not None and last != i:
            turns += 1
        last = i
    for i in close:
        if hasattr(its[i], "close"):
            call(its[i].close)
    for i in range(len(specs)):
        if i not in close:
            call(advance, i, LIMIT - len(got[i]))
            same(got[i], want[i], "generator", i, specs[i], "interleaved with the others, against alone")
    for (k, v) in built.items():
        same([plain(a) for a in v], before[k], "arguments after the enumeration", k)
    return turns >= 2 and sum(1 for w in want if len(w) > 1) >= 2
