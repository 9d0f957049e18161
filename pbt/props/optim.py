"""C28-C30: knapsack, exact cover, travelling salesman."""
import builtins
import functools
import itertools
from collections import Counter
from fractions import Fraction

from hypothesis import strategies as st

from pbt.core import Each, Reject, call, call_list, ensure, law, reject, same

from rosemary.combinatorics.optimization import exact_cover as EC
from rosemary.combinatorics.optimization import genetic_tsp as GT
from rosemary.combinatorics.optimization import knapsack as KS
from rosemary.combinatorics.optimization import tsp as TS


# ------------------------------------------------------------------ C28

def knap_ref(items, capacity):
    """Optimum value by a sweep over the reachable (weight -> best value) states."""
    states = {0: 0}
    for (v, w) in items:
        new = dict(states)
        for (cw, cv) in states.items():
            if cw + w <= capacity and new.get(cw + w, -1) < cv + v:
                new[cw + w] = cv + v
        states = new
    return max(states.values())


def chosen_ok(items, chosen, capacity, value, what):
    have = Counter(items)
    used = Counter(chosen)
    for k in used:
        ensure(used[k] <= have[k], what, "uses item", k, used[k], "times; it is there", have[k], "times")
    ensure(sum(w for (v, w) in chosen) <= capacity, what, "exceeds the capacity:", chosen)
    same(sum(v for (v, w) in chosen), value, what, "value of the chosen items", chosen)


small_items = st.lists(st.tuples(st.one_of(st.integers(0, 12), st.integers(0, 200)),
                                 st.one_of(st.integers(1, 8), st.integers(1, 60))), max_size=10)
# value proportional to weight (subset-sum like) makes the bounds of branch and bound tight
tight_items = st.tuples(st.integers(1, 4), st.lists(st.tuples(st.integers(1, 40), st.integers(-1, 1)), min_size=2, max_size=10)).map(
    lambda t: [(max(0, t[0]*w + d), w) for (w, d) in t[1]])
# values that a float cannot tell apart
huge_items = st.tuples(st.sampled_from([1 << 54, 1 << 61, 10**18, 10**30]),
                       st.lists(st.tuples(st.integers(1, 3), st.integers(0, 3), st.integers(1, 5)), min_size=2, max_size=8)).map(
    lambda t: [(t[0]*k + d, w) for (k, d, w) in t[1]])
any_items = st.one_of(small_items, tight_items, huge_items)


@st.composite
def knap_cases(draw):
    items = draw(any_items)
    total = sum(w for (v, w) in items)
    cap = draw(st.one_of(st.integers(0, total + 3), st.integers(total//4, total//4*3 + 1)))
    return (items, cap)


@law("C28", knap_cases(), quick=800, shards=2)
def exact_solvers(case):
    """the capacity excludes some but not all items"""
    items, cap = case
    want = knap_ref(items, cap)
    keep = list(items)
    r = call(KS.depth_first, items, cap)
    same(r[0], want, "depth_first value")
    chosen_ok(items, list(r[1]), cap, want, "depth_first")
    r = call(KS.dynamic_programming, items, cap)
    same(r[0], want, "dynamic_programming value")
    chosen_ok(items, list(r[1]), cap, want, "dynamic_programming")
    same(sorted(r[1]), list(r[1]), "dynamic_programming reports the items in sorted order")
    r = call(KS.branch_and_bound_depth_first, items, cap)
    same(r[0], want, "branch_and_bound_depth_first value")
    triples = list(r[1])
    idx = [t[2] for t in triples]
    same(len(set(idx)), len(idx), "branch_and_bound_depth_first uses an item twice")
    for (v, w, i) in triples:
        same((v, w), tuple(items[i]), "item reported at index", i)
    chosen_ok(items, [(v, w) for (v, w, i) in triples], cap, want, "branch_and_bound_depth_first")
    same(items, keep, "the items are not modified")
    return 0 < want < sum(v for (v, w) in items)


@law("C28", st.tuples(st.lists(st.tuples(st.integers(0, 60), st.integers(1, 12)), min_size=2, max_size=9), st.integers(2, 12), st.integers(0, 60)), quick=300)
def exact_solvers_with_rational_values(case):
    """the capacity excludes some but not all items, and the optimum is no integer"""
    raw, den, cap = case
    items = [(Fraction(v, den), w) for (v, w) in raw]
    want = knap_ref(items, cap)
    for solver in (KS.depth_first, KS.dynamic_programming, KS.branch_and_bound_depth_first):
        value, chosen = call(solver, items, cap)
        same(value, want, solver.__name__, "value")
        chosen_ok(items, [tuple(t[:2]) for t in chosen], cap, want, solver.__name__)
    return want.denominator > 1 if want else False


@st.composite
def knap_large(draw):
    items = draw(st.lists(st.tuples(st.integers(0, 1000), st.integers(1, 100)), min_size=11, max_size=40))
    total = sum(w for (v, w) in items)
    return (items, draw(st.integers(0, min(total + 5, 900))))


@law("C28", knap_large(), quick=60, thorough=1500)
def dynamic_programming_larger(case):
    """the capacity excludes some but not all items"""
    items, cap = case
    want = knap_ref(items, cap)
    r = call(KS.dynamic_programming, items, cap)
    same(r[0], want, "dynamic_programming value")
    chosen_ok(items, list(r[1]), cap, want, "dynamic_programming")
    return 0 < want < sum(v for (v, w) in items)


@st.composite
def knap_sa(draw):
    items = draw(st.lists(st.tuples(st.integers(0, 300), st.integers(1, 60)), min_size=1, max_size=12))
    total = sum(w for (v, w) in items)
    return (items, draw(st.integers(0, total + 5)))


@law("C28", knap_sa(), quick=6, thorough=120, shards=4)
def simulated_annealing_feasible(case):
    """the capacity excludes some but not all items"""
    items, cap = case
    want = knap_ref(items, cap)
    value, bits = call(KS.simulated_annealing, items, cap)
    same(len(bits), len(items), "length of the selection")
    ensure(all(b in (0, 1) for b in bits), "selection is not a 0/1 vector:", bits)
    chosen_ok(items, [it for (it, b) in zip(items, bits) if b], cap, value, "simulated_annealing")
    ensure(value <= want, "value", value, "above the optimum", want)
    if want > 0:
        ensure(value > 0, "nothing is chosen although an item of positive value fits")
    return 0 < want < sum(v for (v, w) in items)


# ------------------------------------------------------------------ C29

def covers_ref(target, sets):
    """All exact covers as sorted index tuples, by trying every subcollection in element order."""
    target = sorted(target)
    out = []

    def rec(covered, start, used):
        todo = [t for t in target if t not in covered]
        if not todo:
            out.append(tuple(sorted(used)))
            return
        t = todo[0]
        for (i, s) in enumerate(sets):
            if t in s and not covered & s:
                rec(covered | s, i, used + [i])
    rec(frozenset(), 0, [])
    return out


@st.composite
def cover_cases(draw):
    n = draw(st.integers(1, 8))
    universe = list(range(n))
    sets = []
    # planted partitions make solutions likely
    for _ in range(draw(st.integers(0, 4))):
        k = draw(st.integers(1, n))
        parts = [draw(st.integers(0, k - 1)) for _ in universe]
        for q in range(k):
            s = [u for u in universe if parts[u] == q]
            if s:
                sets.append(s)
    sets += draw(st.lists(st.lists(st.sampled_from(universe), min_size=1, max_size=n, unique=True).map(sorted), max_size=6))
    if len(sets) > 14:
        sets = sets[:14]
    sets = draw(st.permutations(sets))
    return (n, list(sets))


@law("C29", cover_cases(), quick=600, shards=2)
def algorithm_x(case):
    """at least two exact covers, or none although every element occurs in a set"""
    n, sets = case
    want = Counter(tuple(sorted(tuple(sets[i]) for i in c)) for c in covers_ref(range(n), [frozenset(s) for s in sets]))
    for fn in (EC.algorithmx, EC.algorithm_dlx):
        got = call_list(fn, set(range(n)), [list(s) for s in sets], limit=5000)
        got = Counter(tuple(sorted(tuple(s) for s in sol)) for sol in got)
        same(got, want, fn.__name__, "exact covers")
        got = call_list(fn, ["x%d" % i for i in range(n)], [set("x%d" % i for i in s) for s in sets], limit=5000)
        same(len(got), sum(want.values()), fn.__name__, "number of exact covers of the relabelled instance")
    total = sum(want.values())
    return total > 1 or (total == 0 and {u for s in sets for u in s} == set(range(n)))


@law("C29", cover_cases(), quick=600, shards=2)
def binary_exact_cover(case):
    """at least two exact covers, or none although every element occurs in a set"""
    n, sets = case
    ints = [sum(1 << u for u in s) for s in sets]
    bits = max([i.bit_length() for i in ints] or [0])
    want = Counter(tuple(sorted(ints[i] for i in c)) for c in covers_ref(range(bits), [frozenset(s) for s in sets]))
    P = call(EC.ExactCoverBinary, ints)
    same(call(P.number_of_solutions), sum(want.values()), "number_of_solutions")
    got = Counter(tuple(sorted(s)) for s in call_list(P.solutions, limit=5000))
    same(got, want, "solutions")
    same(call(P.number_of_solutions), sum(want.values()), "number_of_solutions asked again")
    # with the number of elements given, the last ones may be in no set at all
    wide = Counter(tuple(sorted(ints[i] for i in c)) for c in covers_ref(range(n), [frozenset(s) for s in sets]))
    P = call(EC.ExactCoverBinary, ints, num_bits=n)
    same(call(P.number_of_solutions), sum(wide.values()), "number_of_solutions with num_bits", n)
    got = Counter(tuple(sorted(s)) for s in call_list(P.solutions, limit=5000))
    same(got, wide, "solutions with num_bits", n)
    total = sum(want.values())
    return total > 1 or (total == 0 and {u for s in sets for u in s} == set(range(n)))


@law("C29", st.tuples(st.integers(20, 90), st.integers(2, 4), st.integers(1, 5), st.integers(0, 10**9)), quick=60, thorough=800, cpu=60)
def exact_covers_wide(case):
    """more than 32 elements and an exact cover"""
    import random
    n, parts, width, seed = case
    r = random.Random(seed)
    sets = set()
    for _ in range(parts):
        # a partition into neighbouring blocks, or of a shuffled universe
        order = list(range(n))
        if r.random() < 0.3:
            r.shuffle(order)
        i = 0
        while i < n:
            k = r.randint(1, 2*width)
            sets.add(frozenset(order[i:i + k]))
            i += k
    sets = sorted(map(sorted, sets))
    r.shuffle(sets)
    want = bounded_covers(n, sets, 200)
    if want is None:
        reject()
    want = Counter(want)
    ints = [sum(1 << u for u in s) for s in sets]
    P = call(EC.ExactCoverBinary, ints)
    same(call(P.number_of_solutions), sum(want.values()), "number_of_solutions")
    names = {i: tuple(s) for (i, s) in zip(ints, sets)}
    got = Counter(tuple(sorted(names[i] for i in s)) for s in call_list(P.solutions, limit=1000))
    same(got, want, "solutions")
    for fn in (EC.algorithmx, EC.algorithm_dlx):
        got = call_list(fn, set(range(n)), [list(s) for s in sets], limit=1000)
        same(Counter(tuple(sorted(tuple(s) for s in sol)) for sol in got), want, fn.__name__, "exact covers")
    return n > 32 and bool(want)


def bounded_covers(n, sets, limit):
    """All exact covers of 0 .. n-1, fewest choices first; None when the search is longer than a bound."""
    where = [[] for _ in range(n)]
    masks = [sum(1 << u for u in s) for s in sets]
    for (i, s) in enumerate(sets):
        for u in s:
            where[u].append(i)
    out, steps = [], [0]
    full = (1 << n) - 1

    def rec(covered, used):
        steps[0] += 1
        if len(out) > limit or steps[0] > 3000:
            return
        if covered == full:
            out.append(tuple(sorted(tuple(sets[i]) for i in used)))
            return
        best = None
        for u in range(n):
            if not covered >> u & 1:
                c = [i for i in where[u] if not masks[i] & covered]
                if best is None or len(c) < len(best):
                    best = c
        for i in best:
            rec(covered | masks[i], used + [i])
    rec(0, [])
    return None if len(out) > limit or steps[0] > 3000 else out


@functools.lru_cache(None)
def langford_ref(n):
    seq = [0]*(2*n)

    def rec(p):
        if p == 0:
            return 1
        total = 0
        for i in range(2*n - p - 1):
            if not seq[i] and not seq[i + p + 1]:
                seq[i] = seq[i + p + 1] = p
                total += rec(p - 1)
                seq[i] = seq[i + p + 1] = 0
        return total
    return rec(n)//2


@functools.lru_cache(None)
def tilings_ref(n):
    """Domino tilings of the n x n board by a broken-profile sweep."""
    prof = {0: 1}
    for i in range(n):
        for j in range(n):
            new = Counter()
            for (m, c) in prof.items():
                if m >> j & 1:
                    new[m ^ (1 << j)] += c
                else:
                    new[m | (1 << j)] += c
                    if j + 1 < n and not m >> (j + 1) & 1:
                        new[m | (1 << (j + 1))] += c
            prof = new
    return prof.get(0, 0)


LATIN = {1: 1, 2: 2, 3: 12, 4: 576}


def puzzle_counts(tier):
    for n in range(1, 8 if tier == "quick" else 9):
        yield ("langford", n)
    for n in range(1, 8 if tier == "quick" else 9):
        yield ("domino", n)
    for n in range(1, 4 if tier == "quick" else 5):
        yield ("latin", n)


@law("C29", Each(puzzle_counts), cpu=600)
def counting_puzzles(case):
    """at least one arrangement exists"""
    kind, n = case
    if kind == "langford":
        want = langford_ref(n)
        same(call(EC.langford_pairings, n), want, "langford_pairings", n)
    elif kind == "domino":
        want = tilings_ref(n)
        same(call(EC.domino_tilings, n), want, "domino_tilings", n)
    else:
        want = LATIN[n]
        P = call(EC.ExactCoverBinary, call(EC.latin_square_ints, n))
        same(call(P.number_of_solutions), want, "latin squares of order", n)
    return want > 0


@st.composite
def sudoku_cases(draw):
    digits = draw(st.permutations(range(1, 10)))
    rows = [3*b + r for b in draw(st.permutations(range(3))) for r in draw(st.permutations(range(3)))]
    cols = [3*b + r for b in draw(st.permutations(range(3))) for r in draw(st.permutations(range(3)))]
    flip = draw(st.booleans())
    grid = [[digits[(3*(r % 3) + r//3 + c) % 9] for c in cols] for r in rows]
    if flip:
        grid = [list(x) for x in zip(*grid)]
    keep = draw(st.integers(36, 81))
    order = draw(st.permutations(range(81)))
    shown = set(order[:keep])
    return "".join(str(grid[i//9][i % 9]) if i in shown else "0" for i in range(81))


@law("C29", sudoku_cases(), quick=25, thorough=500, shards=2)
def sudoku(case):
    """at least 20 empty cells"""
    puzzle = case
    same(call(EC.to_string, call(EC.parse, puzzle)), puzzle, "to_string(parse(.))")
    got = call(EC.sudoku_dlx, puzzle)
    ensure(len(got) == 81 and all(p in ("0", g) for (p, g) in zip(puzzle, got)), "the solution", got, "changes a given digit")
    full = set("123456789")
    for k in range(9):
        ensure(set(got[9*k:9*k + 9]) == full, "row", k, "of", got)
        ensure(set(got[k::9]) == full, "column", k, "of", got)
        r, c = 3*(k//3), 3*(k % 3)
        ensure(set(got[9*(r + i) + c + j] for i in range(3) for j in range(3)) == full, "block", k, "of", got)
    return puzzle.count("0") >= 20


# ------------------------------------------------------------------ C30

INF = float("inf")


def tour_cost(path, D):
    return sum(D[path[i]][path[(i + 1) % len(path)]] for i in range(len(path)))


def held_karp(D):
    n = len(D)
    if n == 1:
        return 0
    best = {(1 << (j - 1), j): D[0][j] for j in range(1, n)}
    for size in range(2, n):
        new = {}
        for (mask, j), c in best.items():
            for k in range(1, n):
                b = 1 << (k - 1)
                if not mask & b:
                    key = (mask | b, k)
                    v = c + D[j][k]
                    if key not in new or v < new[key]:
                        new[key] = v
        best = new
    return min(c + D[j][0] for (mask, j), c in best.items())


coord = st.one_of(st.integers(0, 4), st.integers(-50, 50))
point_lists = st.lists(st.tuples(coord, coord), min_size=2, max_size=7)


@st.composite
def matrix_cases(draw, min_n=2, max_n=7, symmetric=None):
    n = draw(st.integers(min_n, max_n))
    sym = draw(st.booleans()) if symmetric is None else symmetric
    w = st.one_of(st.integers(1, 4), st.integers(1, 60))
    D = [[INF]*n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            D[i][j] = draw(w)
            D[j][i] = D[i][j] if sym else draw(w)
    return [[0 if i == j else D[i][j] for j in range(n)] for i in range(n)]


def with_inf(M):
    return [[INF if i == j else M[i][j] for j in range(len(M))] for i in range(len(M))]


def check_tour(path, n, what):
    ensure(sorted(path) == list(range(n)), what, "does not visit every vertex exactly once:", path)


def near(a, b):
    return abs(a - b) <= 1e-6*max(1.0, abs(a), abs(b))


@law("C30", matrix_cases(), quick=350, thorough=6000, shards=2)
def exact_tours_matrix(case):
    """at least five vertices"""
    D = with_inf(case)
    n = len(D)
    keep = [list(r) for r in D]
    want = held_karp(D)
    pts = [(i, (i*i*3) % 7) for i in range(n)]     # unrelated to the matrix
    for fn in (TS.depth_first, TS.branch_and_bound):
        c, path = call(fn, pts, D)
        check_tour(path, n, fn.__name__)
        same(c, tour_cost(path, D), fn.__name__, "cost of the reported tour", path)
        same(c, want, fn.__name__, "optimal tour cost")
        same(D, keep, fn.__name__, "leaves the distance matrix alone")
    return n >= 5


@law("C30", point_lists, quick=250, thorough=4000, shards=2)
def exact_tours_points(case):
    """at least five distinct points"""
    pts = case
    n = len(pts)
    D = [[((a - c)**2 + (b - d)**2)**0.5 for (c, d) in pts] for (a, b) in pts]
    M = call(TS.euclidean_distance_matrix, pts)
    for i in range(n):
        for j in range(n):
            ensure(M[i][j] == INF if i == j else near(M[i][j], D[i][j]), "euclidean_distance_matrix entry", (i, j), M[i][j])
    want = held_karp(D)
    for fn in (TS.depth_first, TS.branch_and_bound):
        c, path = call(fn, pts)
        check_tour(path, n, fn.__name__)
        ensure(near(c, tour_cost(path, D)), fn.__name__, "reports cost", c, "for", path, "of cost", tour_cost(path, D))
        ensure(near(c, want), fn.__name__, "reports", c, "but the optimum is", want)
    return len(set(pts)) >= 5


def two_opt_gain(path, D):
    """The best improvement by exchanging two edges of the tour."""
    n = len(path)
    best = 0
    for i in range(n):
        for j in range(i + 2, n):
            if i == 0 and j == n - 1:
                continue
            a, b = path[i], path[i + 1]
            c, d = path[j], path[(j + 1) % n]
            best = max(best, D[a][b] + D[c][d] - D[a][c] - D[b][d])
    return best


def heuristics(pts, D, passed, opt):
    n = len(D)
    args = (pts, passed) if passed is not None else (pts,)
    ins, path0 = call(TS.farthest_insertion, *args)
    check_tour(path0, n, "farthest_insertion")
    ensure(near(ins, tour_cost(path0, D)), "farthest_insertion reports cost", ins, "for", path0, "of cost", tour_cost(path0, D))
    edges = call(TS.farthest_insertion, *args, edges=True)
    nxt = dict(edges)
    ensure(len(edges) == n and sorted(nxt) == list(range(n)) and sorted(nxt.values()) == list(range(n)), "edges of farthest_insertion", edges)
    ensure(near(sum(D[u][v] for (u, v) in edges), ins), "cost of the edges of farthest_insertion")
    ident = tour_cost(list(range(n)), D)
    for (fn, start) in ((TS.steepest_ascent_two_opt, ins), (TS.two_opt, ident)):
        c, path = call(fn, *args)
        check_tour(path, n, fn.__name__)
        ensure(near(c, tour_cost(path, D)), fn.__name__, "reports cost", c, "for", path, "of cost", tour_cost(path, D))
        ensure(c <= start + 1e-6*max(1, abs(start)), fn.__name__, "ends above its starting tour:", c, start)
        ensure(two_opt_gain(path, D) <= 1e-5, fn.__name__, "stops at", path, "although exchanging two edges gains", two_opt_gain(path, D))
        if opt is not None:
            ensure(c >= opt - 1e-6*max(1, abs(opt)), fn.__name__, "reports", c, "below the optimum", opt)


@law("C30", matrix_cases(min_n=2, max_n=9, symmetric=True), quick=300, thorough=6000)
def heuristic_tours_matrix(case):
    """at least five vertices"""
    D = with_inf(case)
    n = len(D)
    pts = [(i, (i*i*3) % 7) for i in range(n)]
    heuristics(pts, D, [list(r) for r in D], held_karp(D) if n <= 8 else None)
    return n >= 5


@law("C30", st.lists(st.tuples(coord, coord), min_size=2, max_size=25), quick=250, thorough=5000)
def heuristic_tours_points(case):
    """at least five distinct points"""
    D = [[INF if i == j else ((a - c)**2 + (b - d)**2)**0.5 for (j, (c, d)) in enumerate(case)] for (i, (a, b)) in enumerate(case)]
    heuristics(case, D, None, held_karp(D) if len(D) <= 7 else None)
    return len(set(case)) >= 5


@law("C30", st.tuples(st.permutations(range(12)), st.integers(4, 12)), quick=200)
def random_exchange(case):
    """two edges are exchanged"""
    path = [x for x in case[0] if x < case[1]]
    n = len(path)
    keep = list(path)
    nt = False
    for _ in range(5):
        new = call(TS.random_two_opt, path)
        same(path, keep, "random_two_opt modified its argument")
        same(sorted(new), sorted(path), "random_two_opt returns a rearrangement")
        old_e = {frozenset((path[i], path[(i + 1) % n])) for i in range(n)}
        new_e = {frozenset((new[i], new[(i + 1) % n])) for i in range(n)}
        gone = len(old_e - new_e)       # 0 when all but one vertex are reversed: the same tour
        ensure(gone in (0, 2), "random_two_opt gives up", gone, "edges")
        nt = nt or gone == 2
    return nt


def _short_range(*args):
    """range, but the 10000-step annealing schedule is cut to 40 steps so that a case takes a fraction of a second."""
    return builtins.range(40) if args == (10000,) else builtins.range(*args)


def check_annealing(points, D, *args):
    n = len(D)
    TS.range = _short_range
    try:
        c, path = call(TS.simulated_annealing_two_opt, points, *args)
    finally:
        del TS.range
    check_tour(path, n, "simulated_annealing_two_opt")
    ensure(near(c, tour_cost(path, D)), "simulated_annealing_two_opt reports cost", c, "for", path, "of cost", tour_cost(path, D))
    return True


@law("C30", matrix_cases(min_n=3, max_n=6, symmetric=True), quick=4, thorough=60, shards=2, cpu=200)
def simulated_annealing_tour(case):
    """always"""
    D = with_inf(case)
    return check_annealing([(i, (i*i*3) % 7) for i in range(len(D))], D, D)


@law("C30", st.lists(st.tuples(coord, coord), min_size=3, max_size=7, unique=True), quick=4, thorough=60, shards=2, cpu=200)
def simulated_annealing_points(case):
    """always"""
    D = [[((a - c)**2 + (b - d)**2)**0.5 for (c, d) in case] for (a, b) in case]
    return check_annealing(list(case), D)


@st.composite
def genetic_cases(draw):
    pts = draw(st.lists(st.tuples(st.integers(-60, 60), st.integers(-60, 60)), min_size=20, max_size=24))
    return (pts, draw(st.sampled_from([2, 4, 4, 6])), draw(st.integers(0, 4)))


@law("C30", genetic_cases(), quick=8, thorough=150, shards=2, cpu=120)
def genetic_solver(case):
    """at least one generation is bred"""
    pts, popsize, cmax = case
    n = len(pts)
    D = [[((a - c)**2 + (b - d)**2)**0.5 for (c, d) in pts] for (a, b) in pts]
    T = call(GT.TravelingSalesman, pts)
    c, path = call(T.solve, popsize, cmax)
    check_tour(path, n, "TravelingSalesman.solve")
    ensure(near(c, tour_cost(path, D)), "TravelingSalesman.solve reports cost", c, "for", path, "of cost", tour_cost(path, D))
    return cmax > 0


@law("C30", st.tuples(st.lists(st.tuples(coord, coord), min_size=2, max_size=22), st.randoms(use_true_random=False).map(lambda r: r.randrange(10**6))),
     quick=150, thorough=3000)
def genetic_parts(case):
    """at least five distinct points"""
    pts, seed = case
    n = len(pts)
    D = [[((a - c)**2 + (b - d)**2)**0.5 for (c, d) in pts] for (a, b) in pts]
    path = list(range(n))
    import random
    random.Random(seed).shuffle(path)
    T = call(GT.TravelingSalesman, pts)
    ensure(near(call(T.cost, path), tour_cost(path, D)), "TravelingSalesman.cost of", path)
    c, new = call(T.two_opt, list(path))
    check_tour(new, n, "TravelingSalesman.two_opt")
    ensure(near(c, tour_cost(new, D)), "TravelingSalesman.two_opt reports cost", c, "for", new)
    ensure(c <= tour_cost(path, D) + 1e-6, "TravelingSalesman.two_opt makes", path, "longer")
    if n >= 20:
        other = list(range(n))
        random.Random(seed + 1).shuffle(other)
        for (c, child) in call(T.mgkrec, list(path), other):
            check_tour(child, n, "a child bred by mgkrec")
            ensure(near(c, tour_cost(child, D)), "mgkrec reports cost", c, "for", child)
    return len(set(pts)) >= 5
