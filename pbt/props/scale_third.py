"""Further laws at scale: bounds of a hundred bits for maximize_divisors, long power series of partitions, semiprimes of eighty
bits for cfrac, tours over distances of forty bits."""
import math

from hypothesis import strategies as st
from sympy import factorint as sym_factorint, nextprime as sym_nextprime

from pbt.core import Each, call, ensure, is_int, law, same
from pbt.gens import SMALL_PRIMES
from pbt.props.optim import check_tour, heuristics, near, tour_cost

from rosemary.combinatorics.enumeration import enumeration as EN
from rosemary.combinatorics.optimization import tsp as TS
from rosemary.number_theory import misc as M
from rosemary.number_theory.factorization import algorithms as A


# ---------------------------------------------------------------------------
# C20
# ---------------------------------------------------------------------------

def most_divisors(B):
    """max tau(n) over n <= B: numbers with the first primes in turn, keeping only those no other number beats in both size and
    divisor count."""
    front = [(1, 1)]
    for p in SMALL_PRIMES:
        if p > B:
            break
        cand = []
        for (n, t) in front:
            e = 1
            while n <= B:
                cand.append((n, t*e))
                n *= p
                e += 1
        cand.sort(key=lambda c: (c[0], -c[1]))
        new = []
        for c in cand:
            if not new or c[1] > new[-1][1]:
                new.append(c)
        if new == front:
            break
        front = new
    return front[-1][1]


@law("C20", st.tuples(st.integers(40, 96), st.integers(0, 10**40)), quick=12, cpu=60)
def maximize_divisors_huge(case):
    """B of 40 to 96 bits against a search that keeps only undominated numbers; all non-trivial"""
    bits, r = case
    B = (1 << bits) + r % (1 << bits)
    (k, n) = call(M.maximize_divisors, B)
    ensure(is_int(n) and 1 <= n <= B, "maximize_divisors", B, "gives", (k, n))
    t = math.prod(e + 1 for e in sym_factorint(n).values())
    ensure(t == k == most_divisors(B), "maximize_divisors", B, "gives", (k, n), "with", t, "divisors; the most is", most_divisors(B))
    return True


# ---------------------------------------------------------------------------
# C25
# ---------------------------------------------------------------------------

@law("C25", Each(lambda tier: [(r, n) for r in (1, 2, 3, 5, 8, 24) for n in ((41, 64, 65, 130) if tier == "quick" else (41, 64, 65, 130, 300))], whole=False), cpu=60)
def long_partition_powers(case):
    """coefficients of 1/((1 - x)(1 - x^2)...)^r beyond the 40th, by dividing r times by each factor; all non-trivial"""
    r, n = case
    c = [1] + [0]*n
    for k in range(1, n + 1):
        for _ in range(r):
            for i in range(k, n + 1):
                c[i] += c[i - k]
    same(call(EN.rth_power_partition_number, r, n), c[n], "rth_power_partition_number", r, n)
    return True


# ---------------------------------------------------------------------------
# C09
# ---------------------------------------------------------------------------

@law("C09", st.tuples(st.integers(1 << 28, 1 << 36), st.integers(1 << 28, 1 << 40)), quick=6, shards=2, cpu=120)
def cfrac_large_semiprimes(case):
    """16 consecutive semiprimes of 56 to 76 bits: cfrac gives a proper divisor or None, and splits at least 3; all non-trivial"""
    p, q = sym_nextprime(case[0]), sym_nextprime(case[1])
    ok = 0
    for _ in range(16):
        d = call(A.cfrac, p*q)
        ensure(d is None or (is_int(d) and d in (p, q)), "cfrac", p*q, "returned", d)
        ok += d is not None
        p, q = sym_nextprime(p), sym_nextprime(q)
    ensure(ok >= 3, "cfrac found a factor for only", ok, "of the 16 semiprimes from", case)
    return True


# ---------------------------------------------------------------------------
# C30
# ---------------------------------------------------------------------------

@law("C30", st.tuples(st.integers(4, 14), st.sampled_from([2**20, 10**9, 2**40 + 1]), st.integers(0, 10**9)), quick=60, cpu=60)
def tours_over_long_distances(case):
    """integer distances of up to 50 bits: reported costs are those of the tours, tours are closed under exchanging two edges, and
    multiplying all distances by a constant multiplies the costs of the heuristics; all non-trivial"""
    import random
    n, scale, seed = case
    rng = random.Random(seed)
    D = [[0]*n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            D[i][j] = D[j][i] = rng.randint(1, 1000)
    for i in range(n):
        D[i][i] = float("inf")
    big = [[d*scale if d != float("inf") else d for d in row] for row in D]
    pts = [(i, (i*i*3) % 7) for i in range(n)]
    heuristics(pts, big, [list(r) for r in big], None)
    for fn in (TS.farthest_insertion, TS.two_opt, TS.steepest_ascent_two_opt):
        (c0, p0), (c1, p1) = call(fn, pts, [list(r) for r in D]), call(fn, pts, [list(r) for r in big])
        check_tour(p1, n, fn.__name__)
        ensure(near(c1, tour_cost(p1, big)), fn.__name__, "reports cost", c1, "for", p1)
        same(c1, c0*scale, fn.__name__, "on distances multiplied by", scale)
    return True
