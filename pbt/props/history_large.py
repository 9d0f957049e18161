"""C48 for arguments beyond those of pbt.props.history: past the built-in tables, past the cutoffs between methods, and for
containers of some tens of items, where a state kept between calls may only begin to matter."""
import bisect
import hashlib
import importlib
import itertools
import math
import random

from hypothesis import strategies as st
from sympy import nextprime as sym_nextprime

from pbt import core, gens
from pbt.core import call, law, same
from pbt.props import history as H
from pbt.props.history import CO, GA, NT, PK, crt_data, kw, t

from rosemary.number_theory.primes import sieves as SV

LARGE = {}
ITEMS = 400


def big(module, names, args):
    for name in names.split():
        LARGE[module.split(".")[-1] + "." + name] = (module, name, args)


def integers(lo, hi):
    """Mostly in a narrow window, so that the calls of one case often ask for less than one before them."""
    return st.one_of(st.integers(lo, hi), st.integers(lo, lo + max(1, (hi - lo)//50)))


SEVENTY = [p for p in range(2, 360) if all(p % q for q in range(2, math.isqrt(p) + 1))]


@st.composite
def prime_near(draw, lo, hi):
    return sym_nextprime(draw(st.integers(lo, hi)))


@st.composite
def rich(draw):
    """A factorization with up to two hundred divisors."""
    n = draw(st.integers(2, 5))
    out = sorted(draw(st.lists(st.sampled_from(SEVENTY[:25]), min_size=n, max_size=n, unique=True)))
    return [(p, draw(st.integers(1, 4 if i == 0 else 2))) for (i, p) in enumerate(out)]


def value(f):
    return math.prod(p**e for (p, e) in f)


def graph_of(lo, hi, **more):
    return gens.graphs(min_n=lo, max_n=hi, labels=("int",), **more).map(lambda g: ("graph", g))


vertex = st.just(("vertex", 0))
sparse = graph_of(10, 22, connected=True, weights=st.integers(1, 60))
wide = integers(1, 10**40)

sv = NT + "primes.sieves"
big(sv, "primes", t(integers(998000, 1300000)))
big(sv, "eratosthenes1 eratosthenes2 luo chartres pritchard", t(integers(20000, 60000)))
big(sv, "primes_first_n", t(integers(78400, 90000)))
big(sv, "prime_range", t(integers(10**6, 10**9), st.integers(10, 4000)).map(lambda p: (p[0], p[0] + p[1])))
pc = NT + "primes.prime_counting"
big(pc, "legendre meissel lehmer", t(integers(5*10**4, 5*10**5)))
big(pc, "lmo prime_count prime_sum prime_sum2", t(integers(9*10**5, 3*10**6)))
big(pc, "pi_table", t(integers(20000, 80000)))
pr = NT + "primes.primality"
big(pr, "is_prime", t(integers(10**9, 10**12)))
big(pr, "is_probable_prime miller_rabin_deterministic", t(wide.map(lambda n: 2*n + 1)))
big(pr, "next_prime next_probable_prime", t(integers(10**6, 10**10)))
fa = NT + "factorization.factorization"
big(fa, "factor", t(st.tuples(prime_near(10**3, 10**7), prime_near(10**3, 10**7), st.integers(1, 3600)).map(math.prod)))
big(fa, "divisors prime_divisors divisor_pairs unitary_divisors xdivisors", t(rich().map(value)))
big(fa, "divisors_ prime_divisors_ divisor_pairs_ unitary_divisors_ xdivisors_", t(kw(factorization=rich())))
big(fa, "factored_range", t(integers(10**6, 10**8), st.integers(10, 600)).map(lambda p: (p[0], p[0] + p[1])))
al = NT + "factorization.algorithms"
big(al, "trial_division lehman fermat", t(st.tuples(prime_near(100, 900), prime_near(100, 900)).map(math.prod)))
af = NT + "arithmetic_functions."
big(af + "functions", "euler_phi moebius_mu divisor_sigma divisor_tau carmichael_lambda", t(st.one_of(rich(), rich().map(value))))
big(af + "functions", "factorial", t(st.integers(100, 900)))
big(af + "functions", "primorial", t(st.integers(50, 600)))
big(af + "inverse_functions", "euler_phi_inverse", t(st.integers(200, 20000).map(lambda k: 12*k)))
big(af + "sieves", "euler_phi_list moebius_list sigma_list tau_list", t(integers(1000, 8000)))
big(af + "sieves", "moebius_range", t(integers(10**5, 10**7), st.integers(10, 1500)).map(lambda p: (p[0], p[0] + p[1])))
big(af + "sums", "euler_phi_sum euler_phi_weighted_sum moebius_sum sigma_sum", t(integers(10**5, 10**6)))
co = NT + "core"
big(co, "gcd lcm ext_gcd", t(wide, wide))
big(co, "gcd_list lcm_list", t(st.lists(st.integers(1, 10**20), min_size=10, max_size=40)))
big(co, "power_mod", t(wide, wide, wide))
big(co, "integer_sqrt bit_count", t(st.integers(1 << 60, 1 << 3000)))
big(co, "integer_nth_root", t(st.integers(2, 30), st.integers(1 << 60, 1 << 2000)))
big(co, "integer_log", t(st.integers(2, 10**6), st.integers(1 << 60, 1 << 3000)))
big(co, "valuation", st.tuples(st.sampled_from(SEVENTY), st.integers(20, 300), st.integers(1, 10**9)).map(lambda p: (p[0], p[0]**p[1]*p[2])))
big(co, "jacobi_symbol", t(wide, wide.map(lambda n: 2*n + 1)))
moduli = st.lists(st.sampled_from(SEVENTY), min_size=6, max_size=25, unique=True)
big(co, "crt_preconditioning_data", t(moduli))
big(co, "chinese", moduli.map(lambda m: ([(q*q//3, q) for q in m],)))
big(co, "chinese_preconditioned", moduli.map(lambda m: ([(q*q//3, q) for q in m], crt_data(m))))
zn = NT + "zn_arithmetic"
bp = prime_near(10**4, 10**6)
big(zn, "primitive_root", t(bp))
big(zn, "sqrts_mod_p", t(wide, prime_near(10**6, 10**12)))
big(zn, "sqrts_mod_n", t(st.integers(-10**6, 10**6), rich().map(value).filter(lambda n: n < 10**8)))
big(zn, "nth_roots_of_unity_mod_p nth_roots_of_minus1_mod_p", t(st.integers(2, 60), bp))
big(zn, "multiplicative_order is_primitive_root", t(st.integers(2, 5000), bp))
big(zn, "linear_congruence", st.tuples(st.integers(1, 400), st.integers(1, 10**9), st.integers(1, 10**9), st.integers(2, 10**9)).filter(
    lambda p: math.gcd(p[1], p[3]) < 50).map(lambda p: (p[0]*p[1], p[0]*p[2], p[0]*p[3])))
big(zn, "discrete_log", st.tuples(prime_near(10**4, 10**5), st.integers(2, 9000), st.integers(0, 10**5)).map(lambda p: (p[1], pow(p[1], p[2], p[0]), p[0])))
big(NT + "classification", "is_square", t(st.tuples(wide, st.integers(0, 1)).map(lambda p: p[0]**2 + p[1])))
big(NT + "classification", "is_power", t(st.tuples(st.integers(2, 10**6), st.integers(2, 9), st.integers(0, 1)).map(lambda p: p[0]**p[1] + p[2])))
big(NT + "classification", "is_squarefree", t(integers(10**6, 10**9)))
big(NT + "classification", "is_factorial", t(st.integers(5, 300).map(math.factorial)))
pl = NT + "diophantine_equations.pell"
nonsquare = st.integers(100, 3000).filter(lambda d: math.isqrt(d)**2 != d)
big(pl, "pell_fundamental_solution", t(nonsquare))
NEAR_SQUARES = [d for d in range(100, 3000) if math.isqrt(d)**2 != d and min((math.isqrt(d) + 1)**2 - d, d - math.isqrt(d)**2) <= 2]
big(pl, "pell_minimal_positive_solutions", t(st.sampled_from(NEAR_SQUARES), st.integers(-500, 500).filter(bool)))
big(NT + "misc", "bernoulli_list", t(st.integers(20, 60)))
big(NT + "misc", "maximize_divisors", t(integers(10**5, 10**12)))
big(NT + "arithmetic_progressions", "has_three_term_ap longest_ap", t(st.lists(st.integers(0, 500), min_size=10, max_size=50, unique=True).map(sorted)))
pa = PK + "algebra.polynomials.algorithms"
long_poly = st.tuples(st.integers(30, 90), st.integers(0, 10**6)).map(lambda p: [random.Random(p[1]).randrange(-99, 100) for _ in range(p[0])])
big(pa, "mul_classical mul_karatsuba list_add list_subtract", t(long_poly, long_poly))
big(pa, "power_jcp", t(long_poly.map(lambda a: [1] + a[:8]), st.integers(5, 12)))
pws = PK + "algebra.power_series.power_series"
big(pws, "delta_series eta_series", t(integers(30, 150)))
big(pws, "ps_invert", t(long_poly.map(lambda a: [1] + a[:30])))
big(pws, "ps_mult_classical ps_mult_karatsuba", st.tuples(long_poly, long_poly).map(lambda p: (p[0][:30], p[1][:30])))
en = CO + "enumeration.enumeration"
big(en, "bell_number", t(integers(30, 120)))
big(en, "partition_list partition_number", t(integers(100, 600)))
big(en, "stirling_number2", t(integers(15, 60), integers(5, 40)))
big(en, "binomial", t(integers(30, 400), integers(5, 200)))
big(en, "multinomial", t(st.lists(st.integers(0, 30), min_size=3, max_size=12)).map(lambda p: (sum(p[0]), p[0])))
big(en, "necklaces", t(st.integers(9, 200), st.integers(2, 9)))
big(en, "rth_power_partition_number", t(st.integers(1, 4), st.integers(30, 150)))
big(en, "bipartitions", t(st.integers(6, 14), st.integers(6, 14)))
big(en, "number_of_domino_tilings", t(st.integers(5, 9), st.integers(5, 12)))
big(CO + "generation.partitions", "integer_partitions", t(integers(15, 60)))
big(CO + "generation.combinations", "combinations", t(st.integers(10, 30), st.integers(3, 9)))
big(CO + "generation.permutations", "phillips knuth_algorithm_l", t(st.lists(st.integers(0, 9), min_size=7, max_size=12)))
big(CO + "generation.tuples", "n_tuples", t(st.lists(st.integers(1, 5), min_size=5, max_size=12)).map(lambda p: (len(p[0]), p[0])))
ks = CO + "optimization.knapsack"
pieces = st.lists(st.tuples(st.integers(1, 300), st.integers(1, 40)), min_size=10, max_size=13)
big(ks, "depth_first branch_and_bound_depth_first", t(pieces, st.integers(20, 200)))
big(ks, "dynamic_programming", t(st.lists(st.tuples(st.integers(1, 300), st.integers(1, 40)), min_size=20, max_size=60), st.integers(50, 500)))
ec = CO + "optimization.exact_cover"
big(ec, "langford_pairings", t(st.integers(5, 8)))
big(ec, "domino_tilings", t(st.integers(4, 5)))
ts = CO + "optimization.tsp"
places = st.lists(st.tuples(st.integers(0, 99), st.integers(0, 99)), min_size=8, max_size=25, unique=True)
big(ts, "euclidean_distance_matrix farthest_insertion two_opt steepest_ascent_two_opt", t(places))
big(ts, "branch_and_bound", t(st.lists(st.tuples(st.integers(0, 99), st.integers(0, 99)), min_size=6, max_size=8, unique=True)))
gr = PK + "graphs.graphs"
big(gr, "complete_graph coprime_pairs_graph", t(integers(12, 40)))
big(gr, "grid_graph", t(integers(5, 12)))
big(GA + "traversal", "breadth_first_search depth_first_search breadth_first_search_tree depth_first_search_tree", t(sparse, vertex))
big(GA + "connectivity", "connected_components is_connected", t(graph_of(10, 25)))
big(GA + "connectivity", "connected_component", t(graph_of(10, 25), vertex))
big(GA + "paths", "dijkstra dijkstra_buckets dijkstra_pairing_heap dijkstra_iterator bellman_ford", t(sparse, vertex))
big(GA + "paths", "floyd_warshall", t(sparse))
big(GA + "paths", "dijkstra_bidirectional", t(sparse, vertex, st.just(("vertex", 1))))
big(GA + "spanning_trees", "prim kruskal cheriton_tarjan", t(sparse))
big(GA + "spanning_trees", "gabow", t(graph_of(7, 9, connected=True, weights=st.integers(1, 60))))
big(GA + "steiner_trees", "distance_network_heuristic minimum_cost_paths_heuristic", t(sparse, st.just(("vertices", 5))))
mild = graph_of(8, 14)
big(GA + "cliques", "bron_kerbosch bron_kerbosch_binary tomita maximal_cliques pardalos pardalos_binary ostergard ostergard_binary maximum_clique maximum_weight_clique", t(mild))
big(GA + "independent_sets", "maximal_independent_sets branch_and_bound greedy maximum_independent_set", t(mild))
big(GA + "coloring", "dsatur greedy_sequential maxis", t(graph_of(10, 22)))
big(GA + "hamiltonian_paths", "number_of_hamiltonian_paths number_of_hamiltonian_paths_bits number_of_hamiltonian_paths5", t(graph_of(6, 8)))
big(GA + "degree_sequences", "is_graphic is_graphic_erdos_gallai", t(st.lists(st.integers(0, 20), min_size=10, max_size=40)))


def show(x):
    """The result, or its digest when it is long."""
    x = H.plain(x)
    text = repr(x)
    return x if len(text) < 1500 else (text[:200], len(text), hashlib.sha256(text.encode()).hexdigest())


def run_one(name, lit):
    module, attr, _ = LARGE[name]
    random.seed(5)
    args = H.build(lit)
    before = [show(a) for a in args]
    obj = None
    try:
        got = H.invoke(getattr(importlib.import_module(module), attr.rstrip("_")), args)
        if hasattr(got, "__next__"):
            obj = []
            shown = []
            for x in itertools.islice(got, ITEMS):
                shown.append(H.plain(x))
                obj.append(x)
            res = ("ok", ("iter", show(shown)))
        else:
            obj = got
            res = ("ok", show(H.VARIES[name](got) if name in H.VARIES else got))
    except Exception as e:
        res = ("raise", type(e).__name__)
    return res, before, [show(a) for a in args], obj


def history(calls):
    out = []
    for (name, lit, spoiled) in calls:
        res, before, after, obj = run_one(name, lit)
        out.append((res, before, after))
        if spoiled:
            H.spoil(obj)
    return out


def alone(name, lit):
    return run_one(name, lit)[0]


@st.composite
def large_histories(draw):
    name = draw(H.spread(sorted(LARGE)))
    near = [k for k in sorted(LARGE) if LARGE[k][0] == LARGE[name][0]]
    calls = []
    for _ in range(draw(st.integers(2, 4))):
        kind = draw(st.sampled_from(["new", "new", "new", "near", "again"])) if calls else "new"
        if kind == "again":
            calls.append(draw(st.sampled_from(calls))[:2] + (draw(st.booleans()),))
        else:
            k = draw(st.sampled_from(near)) if kind == "near" else name
            calls.append((k, draw(LARGE[k][2]), draw(st.integers(0, 2)) < 2))
    return calls


def check(calls):
    got = H.in_child(history, calls)
    core.CALLS[0] += 1
    for (i, ((name, lit, _), (res, before, after))) in enumerate(zip(calls, got)):
        same(after, before, name, "changes its arguments, call", i, "of", calls)
        if i:
            same(res, H.in_child(alone, name, lit), "call", i, name, "after the calls before it, against the call alone")
    keys = [repr(c[:2]) for c in calls]
    return len({c[0] for c in calls}) < len(calls) and (len(set(keys)) > 1 or any(c[2] for c in calls[:-1]))


@law("C48", large_histories(), quick=450, thorough=5000, shards=6)
def larger_calls_do_not_depend_on_history(calls):
    """calls with larger arguments; a function is called twice, with other arguments or after its result was changed by the caller"""
    return check(calls)


# ------------------------------------------------------------------ C06

_SIEVED = []


def sieved():
    """The primes below 1.4 million."""
    if not _SIEVED:
        n = 1400000
        flags = bytearray([1])*(n + 1)
        flags[0] = flags[1] = 0
        for p in range(2, math.isqrt(n) + 1):
            if flags[p]:
                flags[p*p::p] = bytes(len(range(p*p, n + 1, p)))
        _SIEVED.extend(i for (i, f) in enumerate(flags) if f)
    return _SIEVED


@st.composite
def sieve_calls(draw):
    """Calls of one or two functions around one size, each list possibly changed by the caller before the next call."""
    names = draw(st.sampled_from([["primes"], ["primes"], ["primes_first_n"], ["primes", "primes_first_n"], ["primes", "eratosthenes2"], ["primes", "prime_range"],
                                  ["eratosthenes2", "luo"], ["chartres", "luo"]]))
    lo, hi = draw(st.sampled_from([(1000000, 1002000), (1000000, 1390000), (999900, 1000100), (20000, 20500)]))
    sizes = draw(st.lists(st.integers(lo, hi), min_size=2, max_size=4))
    if draw(st.booleans()):
        sizes.sort(reverse=draw(st.booleans()))
    return [(draw(st.sampled_from(names)), n, draw(st.sampled_from(["first", "pop", "clear", "append", "reverse", "keep"]))) for n in sizes]


@law("C06", sieve_calls(), quick=90, thorough=900, shards=2, cpu=60)
def lists_changed_by_the_caller(calls):
    """sizes beyond the built-in table, and a list is changed before the next call of the same function"""
    table = sieved()
    for (name, n, change) in calls:
        if name == "primes_first_n":
            n = bisect.bisect_right(table, n)
            want = table[:n]
            got = call(SV.primes_first_n, n)
        elif name == "prime_range":
            want = table[bisect.bisect_left(table, n - 5000):bisect.bisect_left(table, n)]
            got = call(lambda: list(SV.prime_range(n - 5000, n)))
        else:
            want = table[:bisect.bisect_right(table, n)]
            got = call(getattr(SV, name), n)
        if got != want:
            same(len(got), len(want), "length of", name, n)
            i = next(i for i in range(len(want)) if got[i] != want[i])
            same(got[i:i + 5], want[i:i + 5], name, n, "from position", i)
        if change == "first":
            got[0] = -1
        elif change == "append":
            got.append(n)
        elif change == "pop":
            got.pop(len(got)//2)
        elif change == "clear":
            got.clear()
        elif change == "reverse":
            got.reverse()
    return any(a[0] == b[0] and a[2] != "keep" and a[1] > 10**6 for (a, b) in zip(calls, calls[1:]))
