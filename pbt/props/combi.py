"""C25-C27, C31: enumeration, permutations and variations, partitions and tuples, alphametics."""
import functools
import itertools
import math

from hypothesis import strategies as st

from pbt.core import Each, Reject, call, call_list, ensure, is_int, law, must_raise, same

from rosemary.combinatorics.enumeration import enumeration as E
from rosemary.combinatorics.generation import combinations as GC
from rosemary.combinatorics.generation import partitions as GP
from rosemary.combinatorics.generation import permutations as GM
from rosemary.combinatorics.generation import tuples as GT
from rosemary.combinatorics.recreational import alphametics as AL


# ------------------------------------------------------------------ C25

@functools.lru_cache(None)
def stirling_ref(n, k):
    """By inclusion-exclusion on surjections."""
    if k > n:
        return 0
    return sum((-1)**i*math.comb(k, i)*(k - i)**n for i in range(k + 1))//math.factorial(k)


@functools.lru_cache(None)
def pcount(n, m):
    """Partitions of n into parts of at most m."""
    if n == 0:
        return 1
    if n < 0 or m == 0:
        return 0
    return pcount(n, m - 1) + pcount(n - m, m)


@law("C25", Each(lambda tier: list(range(0, 72)) + ([85, 100, 130] if tier == "quick" else list(range(72, 190, 3)))))
def bell_and_stirling(n):
    """Bell numbers as sums of Stirling numbers from inclusion-exclusion; non-trivial: n > 3"""
    row = [stirling_ref(n, k) for k in range(n + 1)]
    same(call(E.bell_number, n), sum(row), "bell_number", n)
    for k in range(n + 3):
        same(call(E.stirling_number2, n, k), row[k] if k <= n else 0, "stirling_number2", n, k)
    must_raise(ValueError, E.bell_number, -1 - n)
    return n > 3


@law("C25", st.tuples(st.one_of(st.integers(0, 12), st.integers(0, 400)), st.one_of(st.integers(0, 14), st.integers(0, 420))), quick=700)
def binomials(case):
    """binomial coefficients, also beyond the top row; non-trivial: 1 < k < n - 1"""
    n, k = case
    same(call(E.binomial, n, k), math.comb(n, k), "binomial", n, k)
    return 1 < k < n - 1


@law("C25", st.tuples(st.lists(st.integers(1, 12), min_size=0, max_size=6), st.integers(-3, 6)), quick=600)
def multinomials(case):
    """n!/(k1!...km!), with unlisted classes of size one; ValueError when the parts exceed n or are missing; non-trivial: two or more parts"""
    ks, extra = case
    n = sum(ks) + extra
    if n < 1:
        raise Reject()
    for arg in (list(ks), tuple(ks)):
        if extra < 0 or not ks:
            must_raise(ValueError, E.multinomial, n, arg)
        else:
            want = math.factorial(n)
            for k in ks:
                want //= math.factorial(k)
            same(call(E.multinomial, n, arg), want, "multinomial", n, arg)
    return len(ks) > 1 and extra >= 0


@functools.lru_cache(None)
def bip(m, n, a, b):
    """Multisets of nonzero vectors with sum (m, n), each at most (a, b) lexicographically."""
    if m == 0 and n == 0:
        return 1
    total = 0
    for i in range(min(m, a), -1, -1):
        for j in range(n, -1, -1):
            if (i, j) <= (a, b) and (i or j):
                total += bip(m - i, n - j, i, j)
    return total


@law("C25", Each(lambda tier: [(m, n) for m in range(0, 8 if tier == "quick" else 11) for n in range(0, 8 if tier == "quick" else 11)]))
def bipartite_partitions(case):
    """small bipartite numbers by recursion on the largest part, and symmetry; non-trivial: both above 1"""
    m, n = case
    want = bip(m, n, m, n)
    same(call(E.bipartitions, m, n), want, "bipartitions", m, n)
    same(call(E.bipartitions, n, m), want, "bipartitions", n, m)
    return m > 1 and n > 1


@law("C25", Each(lambda tier: range(0, 260 if tier == "quick" else 700)))
def partition_numbers(n):
    """p(n) by largest part; powers of the generating function by convolution; non-trivial: n > 4"""
    want = pcount(n, n)
    same(call(E.partition_number, n), want, "partition_number", n)
    if n < 60 or n % 50 == 0:
        same(list(call(E.partition_list, n)), [pcount(i, i) for i in range(n + 1)], "partition_list", n)
    if n < 40:
        P = [pcount(i, i) for i in range(n + 1)]
        cur = [1] + [0]*n
        for r in range(1, 7):
            cur = [sum(cur[i]*P[k - i] for i in range(k + 1)) for k in range(n + 1)]
            same(call(E.rth_power_partition_number, r, n), cur[n], "rth_power_partition_number", r, n)
    return n > 4


def tilings(m, n, shapes):
    """Number of tilings by filling the first free cell, on bitmasks."""
    full = (1 << (m*n)) - 1

    @functools.lru_cache(None)
    def go(mask):
        if mask == full:
            return 1
        c = 0
        while mask >> c & 1:
            c += 1
        i, j = divmod(c, n)
        total = 0
        for sh in shapes:
            bits = 0
            for (di, dj) in sh:
                a, b = i + di, j + dj
                if not (0 <= a < m and 0 <= b < n) or mask >> (a*n + b) & 1:
                    break
                bits |= 1 << (a*n + b)
            else:
                total += go(mask | bits)
        return total
    return go(0)


DOMINO = [((0, 0), (0, 1)), ((0, 0), (1, 0))]
TRIOMINO = [((0, 0), (0, 1), (0, 2)), ((0, 0), (1, 0), (2, 0)), ((0, 0), (0, 1), (1, 0)), ((0, 0), (0, 1), (1, 1)),
            ((0, 0), (1, 0), (1, 1)), ((0, 0), (1, 0), (1, -1))]


@law("C25", Each(lambda tier: [(m, n) for m in range(1, 10) for n in range(1, 10) if m*n <= (30 if tier == "quick" else 48)] +
      [(m, n) for (n, top) in ((1, 60), (2, 40), (3, 24), (4, 14)) for m in range(10, top, 3 if tier == "quick" else 1)]), shards=2)
def tiling_counts(case):
    """every small board in both orientations, and long narrow ones; non-trivial: a tiling exists"""
    m, n = case
    d = tilings(m, n, DOMINO)
    same(call(E.number_of_domino_tilings, m, n), d, "number_of_domino_tilings", m, n)
    t = 0
    if m*n <= 30:
        t = tilings(m, n, TRIOMINO)
        same(call(E.triomino_tilings, m, n), t, "triomino_tilings", m, n)
    return d > 1 or t > 1


def rotations_canonical(word):
    return min(word[i:] + word[:i] for i in range(len(word)))


@law("C25", Each(lambda tier: [(n, k) for n in range(1, 13) for k in range(1, 7) if k**n <= (5000 if tier == "quick" else 70000)]))
def necklace_counts(case):
    """orbits of all words under rotation, in total and by colour content; non-trivial: n > 3 and k > 1"""
    n, k = case
    orbits = {}
    seen = set()
    for w in itertools.product(range(k), repeat=n):
        c = rotations_canonical(w)
        if c not in seen:
            seen.add(c)
            content = tuple(w.count(x) for x in range(k))
            orbits[content] = orbits.get(content, 0) + 1
    same(call(E.necklaces, n, k), len(seen), "necklaces", n, k)
    for (content, cnt) in orbits.items():
        if all(content):
            same(call(E.necklaces, n, k, list(content)), cnt, "necklaces", n, k, content)
            same(call(E.necklaces, n, k, tuple(content)), cnt, "necklaces", n, k, content)
    return n > 3 and k > 1


@law("C25", st.tuples(st.one_of(st.integers(1, 40), st.integers(1, 150)), st.integers(1, 30), st.lists(st.integers(1, 9), min_size=1, max_size=5), st.integers(1, 8)), quick=300)
def large_necklaces(case):
    """fixed points of the rotations (Burnside), counts far above 2**53; content counts with a common divisor; non-trivial: more than 2**53 necklaces"""
    n, k, w, d = case
    want = sum(k**math.gcd(i, n) for i in range(n))//n
    same(call(E.necklaces, n, k), want, "necklaces", n, k)
    weights = [d*x for x in w]
    m = sum(weights)
    total = 0
    for i in range(m):
        g = math.gcd(i, m)
        if all(x*g % m == 0 for x in weights):
            t = math.factorial(g)
            for x in weights:
                t //= math.factorial(x*g//m)
            total += t
    same(call(E.necklaces, m, len(w), list(weights)), total//m, "necklaces", m, len(w), weights)
    return want > 1 << 53


@law("C25", Each(lambda tier: list(range(300, 1000, 100)) if tier == "quick" else list(range(300, 3000, 70))), shards=2)
def large_partition_numbers(n):
    """p(0..n) far above 2**53 by adding one part size at a time; non-trivial: always"""
    L = [1] + [0]*n
    for k in range(1, n + 1):
        for i in range(k, n + 1):
            L[i] += L[i - k]
    same(list(call(E.partition_list, n)), L, "partition_list", n)
    same(call(E.partition_number, n), L[n], "partition_number", n)
    return True


# ------------------------------------------------------------------ C26

multiset = st.one_of(st.lists(st.integers(0, 2), min_size=1, max_size=7), st.lists(st.integers(0, 6), min_size=1, max_size=6),
                     st.lists(st.sampled_from("abcx"), min_size=1, max_size=7),
                     st.lists(st.tuples(st.integers(0, 1), st.integers(0, 1)), min_size=1, max_size=5))


def check_perms(L):
    want = sorted(set(itertools.permutations(L)))
    x = list(L)
    for fn in (GM.phillips, GM.knuth_algorithm_l):
        got = call_list(fn, x, limit=len(want))
        same([tuple(p) for p in got], want, fn.__name__, L)
    allv = set()
    for r in range(0, len(L) + 1):
        w = sorted(set(itertools.permutations(L, r)))
        allv.update(w)
        got = call_list(GM.knuth_algorithm_l_rvariations, x, r, limit=len(w))
        same([tuple(p) for p in got], w, "knuth_algorithm_l_rvariations", L, r)
    got = call_list(GM.knuth_algorithm_l_variations, x, limit=len(allv))
    same([tuple(p) for p in got], sorted(allv), "knuth_algorithm_l_variations", L)
    same(x, list(L), "argument of the generators")
    return len(want) > 2


@law("C26", multiset, quick=400, shards=2)
def multiset_orders(L):
    """permutations, variations and r-variations of multisets in lexicographic order, each once; non-trivial: more than two permutations"""
    if len(set(L)) > 6:
        raise Reject()
    return check_perms(L)


@law("C26", Each(lambda tier: [list(w) for n in range(1, 6 if tier == "quick" else 7) for w in itertools.product(range(min(n, 3)), repeat=n)] +
                 [list(range(n)) for n in range(1, 8)]))
def multiset_orders_small(L):
    """every word over three letters up to length 5, and distinct letters up to length 7; non-trivial: more than two permutations"""
    return check_perms(L)


@law("C26", Each(lambda tier: [0]))
def empty_multiset(_):
    """the empty multiset has one arrangement; non-trivial: always"""
    same(call_list(GM.phillips, [], limit=2), [[]], "phillips []")
    same(call_list(GM.knuth_algorithm_l, [], limit=2), [[]], "knuth_algorithm_l []")
    same(call_list(GM.knuth_algorithm_l_variations, [], limit=2), [[]], "knuth_algorithm_l_variations []")
    return True


@law("C26", Each(lambda tier: [7, 8] if tier == "quick" else [8, 9]))
def long_orders(n):
    """all permutations of n elements with one repeated element, streamed: strictly increasing and the right number; non-trivial: always"""
    L = list(range(n - 1)) + [n//2]
    for fn in (GM.phillips, GM.knuth_algorithm_l):
        prev = None
        cnt = 0
        for p in call(fn, L):
            if prev is not None:
                ensure(prev < p, fn.__name__, "is not increasing:", prev, p)
            prev = list(p)
            cnt += 1
        same(cnt, math.factorial(n)//2, "number of arrangements of", fn.__name__, L)
    return True


# ------------------------------------------------------------------ C27

def partitions_ref(n, mx=None):
    mx = n if mx is None else mx
    if n == 0:
        yield []
        return
    for a in range(min(n, mx), 0, -1):
        for rest in partitions_ref(n - a, a):
            yield [a] + rest


@functools.lru_cache(None)
def all_partitions(n):
    return [tuple(p) for p in partitions_ref(n)]


def check_partitions(n, kw):
    want = []
    for p in all_partitions(n):
        if kw.get("distinct") and len(set(p)) != len(p):
            continue
        if kw.get("num_parts") and len(p) != kw["num_parts"]:
            continue
        if "parts" in kw and not set(p) <= set(kw["parts"]):
            continue
        want.append(p)
    kw2 = dict(kw)
    if "parts" in kw2:
        kw2["parts"] = list(kw2["parts"])
    got = call_list(GP.integer_partitions, n, limit=len(want), **kw2)
    got = [tuple(p) for p in got]
    for p in got:
        ensure(all(a >= b for (a, b) in zip(p, p[1:])), "partition", p, "is not in decreasing order")
    same(sorted(got), sorted(want), "integer_partitions", n, kw)
    return len(want)


@law("C27", Each(lambda tier: range(0, 17 if tier == "quick" else 26)))
def partitions_small(n):
    """every n with every num_parts and with distinct parts; non-trivial: n > 3"""
    check_partitions(n, {})
    check_partitions(n, {"distinct": True})
    check_partitions(n, {"distinct": False})
    for m in range(0, n + 3):
        check_partitions(n, {"num_parts": m})
        check_partitions(n, {"num_parts": m, "distinct": True})
    return n > 3


@law("C27", st.tuples(st.integers(0, 18), st.one_of(st.none(), st.lists(st.integers(1, 20), max_size=7, unique=True)),
                      st.one_of(st.none(), st.integers(0, 8)), st.one_of(st.none(), st.booleans())), quick=900)
def partitions_constrained(case):
    """given parts, number of parts and distinctness in combination, against filtering all partitions; non-trivial: given parts and two or more partitions"""
    n, parts, m, distinct = case
    kw = {}
    if parts is not None:
        kw["parts"] = tuple(parts)
    if m is not None:
        kw["num_parts"] = m
    if distinct is not None:
        kw["distinct"] = distinct
    k = check_partitions(n, kw)
    return parts is not None and k >= 2


@law("C27", Each(lambda tier: [(n, t) for n in range(0, 11 if tier == "quick" else 15) for t in range(0, n + 3)]))
def all_combinations(case):
    """every t-subset of {0..n-1} once, in decreasing order of elements and lexicographic order; non-trivial: 1 < t < n"""
    n, t = case
    want = sorted(tuple(sorted(c, reverse=True)) for c in itertools.combinations(range(n), t))
    got = call_list(GC.combinations, n, t, limit=len(want))
    same([tuple(c) for c in got], want, "combinations", n, t)
    return 1 < t < n


@law("C27", st.lists(st.integers(1, 5), max_size=6), quick=300)
def mixed_radix_tuples(M):
    """every tuple below the given bounds once in lexicographic order; one bound for all; binary by default; non-trivial: two different bounds"""
    n = len(M)
    want = [list(t) for t in itertools.product(*[range(m) for m in M])]
    if len(want) > 4000:
        raise Reject()
    x = list(M)
    same(call_list(GT.n_tuples, n, x, limit=len(want)), want, "n_tuples", n, M)
    same(x, M, "argument of n_tuples")
    for b in (1, 2, 3):
        w = [list(t) for t in itertools.product(range(b), repeat=n)]
        same(call_list(GT.n_tuples, n, b, limit=len(w)), w, "n_tuples", n, b)
    w = [list(t) for t in itertools.product(range(2), repeat=n)]
    same(call_list(GT.n_tuples, n, limit=len(w)), w, "n_tuples", n)
    return len(set(M)) > 1


# ------------------------------------------------------------------ C31

@functools.lru_cache(None)
def perm_table(k):
    import numpy as np
    return np.array(list(itertools.permutations(range(10), k)), dtype=np.int64).reshape(-1, k)


def alphametic_ref(lhs, rhs):
    import numpy as np
    letters = sorted(set("".join(lhs + rhs)))
    T = perm_table(len(letters))
    idx = {c: i for (i, c) in enumerate(letters)}
    co = [0]*len(letters)
    for (s, words) in ((1, lhs), (-1, rhs)):
        for w in words:
            for (e, c) in enumerate(reversed(w)):
                co[idx[c]] += s*10**e
    ok = (T @ np.array(co, dtype=np.int64)) == 0
    for w in lhs + rhs:
        ok &= T[:, idx[w[0]]] != 0
    out = []
    for row in T[ok]:
        val = lambda w: int("".join(str(row[idx[c]]) for c in w))
        out.append(([val(w) for w in lhs], [val(w) for w in rhs]))
    return sorted(out)


@st.composite
def puzzles(draw):
    k = draw(st.integers(2, 5))
    letters = "sendmory"[:k]
    word = st.text(alphabet=letters, min_size=1, max_size=5)
    return (draw(st.lists(word, min_size=1, max_size=3)), draw(st.lists(word, min_size=1, max_size=2)))


@law("C31", puzzles(), quick=220, shards=3)
def alphametic_small(case):
    """puzzles over up to five letters: exactly the solutions found by trying all assignments; non-trivial: a solution exists"""
    lhs, rhs = case
    want = alphametic_ref(lhs, rhs)
    got = call_list(AL.solve, list(lhs), list(rhs), limit=len(want))
    same(sorted((list(a), list(b)) for (a, b) in got), want, "solutions of", lhs, rhs)
    return bool(want)


@st.composite
def planted_puzzles(draw):
    """A true sum of numbers, with digits renamed to letters."""
    nums = draw(st.lists(st.one_of(st.integers(1, 9999), st.integers(100, 99999)), min_size=1, max_size=3))
    total = sum(nums)
    right = [total]
    if draw(st.booleans()) and total > 2:
        a = draw(st.integers(1, total - 1))
        right = [a, total - a]
    perm = draw(st.permutations("abcdefghij"))
    ren = lambda v: "".join(perm[int(c)] for c in str(v))
    return ([ren(v) for v in nums], [ren(v) for v in right], nums, right)


@law("C31", planted_puzzles(), quick=70, shards=4, cpu=120)
def alphametic_planted(case):
    """puzzles made from a true sum: that solution is among the first ones found or the search is exhaustive and distinct, and all solutions are valid;
    non-trivial: seven or more letters"""
    lhs, rhs, nums, right = case
    letters = set("".join(lhs + rhs))
    seen = set()
    count = 0
    cut = False
    gen = call(AL.solve, list(lhs), list(rhs))
    while count < 3000:
        item = call(lambda: next(gen, None))
        if item is None:
            break
        count += 1
        a, b = item
        ensure(len(a) == len(lhs) and len(b) == len(rhs) and sum(a) == sum(b), "solution", item, "of", lhs, rhs)
        m = {}
        for (w, v) in zip(list(lhs) + list(rhs), list(a) + list(b)):
            s = str(v)
            ensure(len(s) == len(w), "leading zero in", item, "of", lhs, rhs)
            for (c, d) in zip(w, s):
                ensure(m.setdefault(c, d) == d, "letter", c, "has two values in", item)
        ensure(len(set(m.values())) == len(m) == len(letters), "two letters share a digit in", item)
        key = (tuple(a), tuple(b))
        ensure(key not in seen, "solution repeated:", item)
        seen.add(key)
    else:
        cut = True
    ensure(cut or (tuple(nums), tuple(right)) in seen, "the planted solution", nums, right, "of", lhs, rhs, "is missing")
    if len(letters) <= 6:
        same(sorted(seen), sorted((tuple(a), tuple(b)) for (a, b) in alphametic_ref(list(lhs), list(rhs))) if not cut else sorted(seen), "all solutions of", lhs, rhs)
    return len(letters) >= 7
