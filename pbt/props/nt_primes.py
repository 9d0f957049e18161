"""C05-C07: primality, prime sieves, prime counting and summing."""
import bisect
import itertools
import math

import numpy as np
from hypothesis import strategies as st
from sympy import isprime as sym_isprime, nextprime as sym_nextprime, primepi as sym_primepi

from pbt.core import Each, call, call_list, ensure, is_int, law, same
from pbt.gens import SMALL_PRIMES, big_primes, dict_ints, ints
from pbt.pseudoprimes import STRONG

from rosemary.number_theory.primes import primality as P
from rosemary.number_theory.primes import prime_counting as C
from rosemary.number_theory.primes import sieves as S

LIM = 12500000


def _np_sieve(n):
    s = np.ones(n + 1, dtype=bool)
    s[:2] = False
    for p in range(2, int(n**0.5) + 2):
        if p <= n and s[p]:
            s[p*p::p] = False
    return s


IS = _np_sieve(LIM)
PRIMES = np.flatnonzero(IS)
PI = np.cumsum(IS)
SUM = np.cumsum(np.where(IS, np.arange(LIM + 1, dtype=np.int64), 0))


def plist(a, b):
    """primes in [a, b)"""
    i, j = np.searchsorted(PRIMES, [a, b])
    return [int(p) for p in PRIMES[i:j]]


def is_prime_ref(n):
    return bool(IS[n]) if 0 <= n <= LIM else sym_isprime(n)


# Strong pseudoprimes to several bases, Carmichael numbers, squares of primes.
HARD = [9, 15, 25, 27, 49, 121, 169, 341, 561, 1105, 1729, 2047, 2465, 2821, 3277, 4033, 4681, 6601, 8321, 8911, 15841, 29341, 42799, 49141, 52633,
        65281, 74665, 80581, 85489, 88357, 90751, 1373653, 25326001, 3215031751, 2152302898747, 3474749660383,
        1194649, 12327121, 3057601, 8719309, 1530787, 1987021, 2284453, 3116107, 5173601, 6787327, 11541307, 13694761, 15978007, 16070429,
        25696133, 20647621, 48316969, 53245921, 118670087467, 999983**2, 999983*1000003, 1000003**2]
HARD = [n for n in HARD if not sym_isprime(n)]


@st.composite
def _odd_numbers(draw, lo=3, hi=1 << 64):
    kind = draw(st.sampled_from(["any", "any", "prime", "semi", "hard", "chernick", "twin"]))
    if kind == "any":
        n = draw(ints(lo, hi))
    elif kind == "prime":
        n = draw(st.sampled_from(big_primes()))
    elif kind == "semi":
        p = draw(st.sampled_from(big_primes()))
        q = draw(st.sampled_from(SMALL_PRIMES[1:] + big_primes()))
        n = p*q
    elif kind == "hard":
        n = draw(st.sampled_from(HARD))
    elif kind == "chernick":
        k = draw(st.integers(1, 3000))
        n = (6*k + 1)*(12*k + 1)*draw(st.sampled_from([1, 18*k + 1]))
    else:
        p = draw(st.sampled_from(big_primes()[:60] + SMALL_PRIMES[1:]))
        n = p*(2*p - 1)
    n |= 1
    return n if lo <= n <= hi else lo + 2*(n % ((min(hi, 10**9) - lo)//2))


# ------------------------------------------------------------------ C05

@law("C05", Each(lambda tier: iter(range(-50, 60000 if tier == "quick" else 400000))), shards=2)
def is_prime_small(n):
    """every n in [-50, 60000): is_prime and the deterministic test against a sieve; non-trivial: n prime"""
    want = is_prime_ref(n) if n >= 0 else False
    same(call(P.is_prime, n), want, "is_prime", n)
    if n < 4000:
        same(call(P.miller_rabin_deterministic, n), want, "miller_rabin_deterministic", n)
    if n > 1 and n % 2:
        same(call(P.is_probable_prime, n), want, "is_probable_prime", n)
    return want


@law("C05", st.one_of(st.integers(990000, 1010000), ints(0, LIM, sub="number_theory"), st.sampled_from(HARD),
                      st.tuples(st.integers(0, 168), st.integers(0, 168)).map(lambda t: SMALL_PRIMES[t[0]]*SMALL_PRIMES[t[1]])), quick=4000)
def is_prime_table_edge(n):
    """around the end of the precomputed table, thresholds found in the source, pseudoprimes; non-trivial: prime or odd composite > 10^6"""
    want = is_prime_ref(n)
    same(call(P.is_prime, n), want, "is_prime", n)
    return want or (n % 2 and n > 10**6)


@law("C05", _odd_numbers(3, 1 << 40), quick=1200, cpu=60)
def is_prime_medium(n):
    """odd n up to 2^40 (primes, semiprimes, Carmichael forms); non-trivial: no prime factor below 100"""
    want = sym_isprime(n)
    same(call(P.is_prime, n), want, "is_prime", n)
    same(call(P.is_probable_prime, n), want, "is_probable_prime", n)
    same(call(P.miller_rabin_deterministic, n), want, "miller_rabin_deterministic", n)
    return all(n % p for p in SMALL_PRIMES[:25])


@law("C05", _odd_numbers(3, 10**24), quick=4000)
def is_probable_prime_exact(n):
    """the test with the prime bases 2..41 is exact below 3.3*10^24 (Sorenson, Webster); non-trivial: no factor below 100"""
    same(call(P.is_probable_prime, n), sym_isprime(n), "is_probable_prime", n)
    return all(n % p for p in SMALL_PRIMES[:25])


@law("C05", Each(lambda tier: (n for (k, n) in STRONG)))
def strong_pseudoprimes(n):
    """composites with no small factor that pass the strong test for the first k prime bases; all non-trivial"""
    same(call(P.is_probable_prime, n), False, "is_probable_prime", n)
    if n < 1 << 80:
        same(call(P.next_probable_prime, n - 1), sym_nextprime(n), "next_probable_prime", n - 1)
    return True


@law("C05", st.sampled_from([31, 61, 89, 107, 127, 521, 607]).map(lambda p: 2**p - 1) | st.sampled_from(big_primes()), quick=150)
def primes_never_rejected(n):
    """no probabilistic test ever rejects a prime, whatever the base; all non-trivial"""
    same(call(P.is_probable_prime, n), True, "is_probable_prime", n)
    for a in (2, 3, 5, 7, 10, 11, 12, 13, 37, 1000, n - 2, n - 1, n//2, n//3, None, None):
        same(call(P.miller_rabin, n, a), True, "miller_rabin", (n, a))
        same(call(P.solovay_strassen, n, a), True, "solovay_strassen", (n, a))
    return True


def _strong(n, a):
    t, s = n - 1, 0
    while t % 2 == 0:
        t //= 2
        s += 1
    b = pow(a, t, n)
    return b in (1, n - 1) or any(pow(a, t << i, n) == n - 1 for i in range(1, s))


def _jacobi(a, n):
    a %= n
    t = 1
    while a:
        while a % 2 == 0:
            a //= 2
            if n % 8 in (3, 5):
                t = -t
        a, n = n, a
        if a % 4 == 3 and n % 4 == 3:
            t = -t
        a %= n
    return t if n == 1 else 0


def _witness(case):
    n, a = case
    same(bool(call(P.miller_rabin, n, a)), _strong(n, a), "miller_rabin", case)
    j = _jacobi(a, n)
    same(bool(call(P.solovay_strassen, n, a)), j != 0 and pow(a, (n - 1)//2, n) == j % n, "solovay_strassen", case)
    return not is_prime_ref(n)


@law("C05", Each(lambda tier: ((n, a) for n in range(5, 180 if tier == "quick" else 700, 2) for a in range(2, n - 1))))
def witnesses_small(case):
    """every odd n < 180 and base a in [2, n - 2]: both tests are the strong/Euler-Jacobi conditions; non-trivial: n composite"""
    return _witness(case)


@law("C05", st.tuples(_odd_numbers(5, 1 << 64), ints(2, 1 << 64)).map(lambda t: (t[0], 2 + t[1] % (t[0] - 3))), quick=3000)
def witnesses_big(case):
    """odd n up to 2^64 with a random base; non-trivial: n composite"""
    return _witness(case)


@law("C05", st.one_of(st.sampled_from(HARD), st.integers(4, 10**6).map(lambda k: 2*k + 1)).filter(lambda n: n > 8 and not is_prime_ref(n)), quick=200)
def random_bases_detect(n):
    """a composite is rejected by at least one of 60 random bases (error < 2^-60 for the weaker test); all non-trivial"""
    ensure(not all(call(P.miller_rabin, n) for _ in range(60)), "miller_rabin accepts the composite", n, "for 60 random bases")
    ensure(not all(call(P.solovay_strassen, n) for _ in range(60)), "solovay_strassen accepts the composite", n, "for 60 random bases")
    return True


MERSENNE = {3, 5, 7, 13, 17, 19, 31, 61, 89, 107, 127, 521, 607, 1279}


@law("C05", Each(lambda tier: (p for p in SMALL_PRIMES if 3 <= p < (700 if tier == "quick" else 1300))))
def lucas_lehmer_exponents(p):
    """every odd prime exponent below 700 against the list of Mersenne exponents; non-trivial: all"""
    same(call(P.lucas_lehmer, p), p in MERSENNE, "lucas_lehmer", p)
    return True


@law("C05", Each(lambda tier: iter(range(-20, 6000 if tier == "quick" else 60000))))
def next_prime_small(n):
    """every n in [-20, 6000); non-trivial: all"""
    return _next(n)


def _next(n):
    want = sym_nextprime(n)
    same(call(P.next_prime, n), want, "next_prime", n)
    same(call(P.next_probable_prime, n), want, "next_probable_prime", n)
    return True


@law("C05", st.one_of(ints(1, 1 << 36), st.sampled_from(big_primes()[:120]), st.integers(999800, 1000100),
                      st.sampled_from([p - 1 for p in big_primes()[:120]]), st.sampled_from([n - 1 for n in HARD if n < 1 << 40])), quick=400, cpu=60)
def next_prime_big(n):
    """n up to 2^36, at primes, just below primes and just below pseudoprimes; all non-trivial"""
    return _next(n)


@law("C05", st.tuples(ints(1, 10**7), st.integers(0, 200), st.integers(0, 200)), quick=800)
def random_prime_in_range(case):
    """intervals [a, b] containing a prime; non-trivial: the interval contains a composite too"""
    a, d1, d2 = case
    p = sym_nextprime(a)
    lo, hi = max(1, p - d1), p + d2
    r = call(P.random_prime, lo, hi)
    ensure(is_int(r) and lo <= r <= hi and is_prime_ref(r), "random_prime", (lo, hi), "returned", r)
    return d1 + d2 > 0


# ------------------------------------------------------------------ C06

SIEVES = [S.primes, S.eratosthenes1, S.eratosthenes2, S.luo, S.chartres, S.pritchard]


@law("C06", Each(lambda tier: iter(range(0, 2600 if tier == "quick" else 12000))), shards=4)
def sieves_small(n):
    """every n in [0, 2600): all six sieves against a reference; non-trivial: n >= 10"""
    want = plist(0, n + 1)
    for f in SIEVES:
        same(call(f, n), want, f.__name__, n)
    return n >= 10


@law("C06", st.one_of(ints(0, 120000, sub="number_theory/primes"), st.sampled_from(SMALL_PRIMES[3:80]).map(lambda p: p*p),
                      st.tuples(st.sampled_from(SMALL_PRIMES[3:80]), st.integers(-2, 2)).map(lambda t: t[0]**2 + t[1])), quick=250, shards=2)
def sieves_medium(n):
    """n up to 120000, at and around squares of primes; non-trivial: n >= 1000"""
    want = plist(0, n + 1)
    for f in SIEVES:
        same(call(f, n), want, f.__name__, n)
    return n >= 1000


@law("C06", st.one_of(st.integers(999900, 1000200), st.sampled_from([999983, 10**6, 999982, 999984, 1000003, 1000002]),
                      st.integers(10**6, 3*10**6), ints(0, 3*10**6, sub="number_theory")), quick=60, shards=2)
def primes_around_table(n):
    """primes(n), eratosthenes1/2 and luo around and past the precomputed table; all non-trivial"""
    want = plist(0, n + 1)
    for f in (S.primes, S.eratosthenes1, S.eratosthenes2, S.luo):
        same(call(f, n), want, f.__name__, n)
    return True


@law("C06", st.one_of(st.integers(0, 3000), ints(0, 78600), st.integers(78480, 78600), st.integers(78498, 200000)), quick=150, shards=2)
def first_n(n):
    """the first n primes, across the end of the table; non-trivial: n >= 1"""
    same(call(S.primes_first_n, n), [int(p) for p in PRIMES[:n]], "primes_first_n", n)
    return n >= 1


@law("C06", Each(lambda tier: ((a, b) for a in range(1, 75 if tier == "quick" else 200) for b in range(a + 1, 90 if tier == "quick" else 260))))
def range_small(case):
    """every interval 1 <= a < b < 90; non-trivial: contains a prime"""
    return _range(case)


def _range(case):
    a, b = case
    want = plist(a, b) if b <= LIM else [n for n in range(a, b) if sym_isprime(n)]
    same(call_list(S.prime_range, a, b), want, "list(prime_range(a, b))", case)
    return bool(want)


@law("C06", Each(lambda tier: iter(range(2, 500 if tier == "quick" else 3000))))
def range_one_argument(b):
    """prime_range(b) is the interval [1, b); non-trivial: b > 2"""
    same(call_list(S.prime_range, b), plist(1, b), "list(prime_range(b))", b)
    return b > 2


@law("C06", st.tuples(ints(1, 3*10**6, sub="number_theory/primes"), st.one_of(st.integers(1, 300), st.integers(1, 30000))).map(
    lambda t: (t[0], t[0] + t[1])), quick=250)
def range_medium(case):
    """intervals below 10^7; non-trivial: contains a prime"""
    return _range(case)


@law("C06", st.one_of(
    st.tuples(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 100, 3160, 3162, 3163, 3164, 3167, 3169, 3170]), st.integers(10**7 - 3, 10**7 + 60)),
    st.tuples(st.one_of(st.integers(1, 3400), st.sampled_from(SMALL_PRIMES)), st.integers(10**7, 10**7 + 40000))), quick=12, shards=3, cpu=90)
def range_segmented_from_below(case):
    """[a, b) with a below sqrt(b) and b past the cutoff 10^7; all non-trivial"""
    return _range(case)


@law("C06", st.one_of(
    st.tuples(st.one_of(ints(9*10**6, 10**10), ints(10**7, 10**12), st.integers(10**7 - 500, 10**7 + 500)), st.one_of(st.integers(1, 100), st.integers(1, 3000))).map(
        lambda t: (t[0], max(t[0] + t[1], t[0] + 1))),
    # intervals around squares of primes, where the segmented sieve needs its last prime
    st.tuples(st.sampled_from([3163, 3167, 3169, 4001, 9973, 10007, 99991, 100003]), st.integers(0, 40), st.integers(1, 40)).map(
        lambda t: (t[0]**2 - t[1], t[0]**2 + t[2]))), quick=120, shards=3, cpu=90)
def range_segmented(case):
    """intervals around and past 10^7, starting above sqrt(b), up to 10^12; non-trivial: contains a prime"""
    a, b = case
    if b <= LIM:
        return _range(case)
    want = []
    n = sym_nextprime(a - 1)
    while n < b:
        want.append(n)
        n = sym_nextprime(n)
    same(call_list(S.prime_range, a, b), want, "list(prime_range(a, b))", case)
    return bool(want)


@law("C06", st.tuples(st.one_of(st.integers(3163, 40000), st.sampled_from([int(p) for p in PRIMES[446:4000]])), st.integers(-3, 3), st.integers(0, 10**9),
                      st.sampled_from([0, 0, 1, 2, 50])), quick=100, shards=2, cpu=60)
def range_changing_over(case):
    """the first primes of [a, b) for a within 3 of the square root of b > 10^7, where the enumeration changes from the base primes to the
    segments (b anywhere between two squares); all non-trivial"""
    r, da, off, k = case
    b = max(10**7 + 1, r*r + off % (2*r + 1))
    a = r + da
    got = call(lambda: list(itertools.islice(S.prime_range(a, b), 40 + k)))
    i = bisect.bisect_left(PRIMES, a)
    same([int(p) for p in got], [int(p) for p in PRIMES[i:i + 40 + k]], "the first primes of prime_range(a, b)", (a, b))
    return True


@law("C06", st.tuples(st.integers(2, 3000), st.sampled_from(range(6)), st.integers(0, 5)), quick=150)
def results_are_fresh(case):
    """changing a returned list never changes a later result; all non-trivial"""
    n, i, k = case
    f = SIEVES[i]
    a = call(f, n)
    a.append(4)
    a[0] = 1
    b = call(S.primes_first_n, k + 1)
    b[0] = 9
    same(call(f, n), plist(0, n + 1), f.__name__ + " after an earlier result was modified", n)
    same(call(S.primes_first_n, k + 1), [int(p) for p in PRIMES[:k + 1]], "primes_first_n after an earlier result was modified", k + 1)
    same(call(P.is_prime, n), is_prime_ref(n), "is_prime after an earlier sieve result was modified", n)
    return True


# ------------------------------------------------------------------ C07

COUNTERS = [C.legendre, C.meissel, C.lehmer, C.lmo]


@law("C07", Each(lambda tier: iter(range(1, 1500 if tier == "quick" else 20000))))
def counts_small(n):
    """every n in [1, 1500): the four counters, lmo_bit, both prime sums, the tables; non-trivial: n >= 10"""
    want = int(PI[n])
    for f in COUNTERS:
        same(call(f, n), want, f.__name__, n)
    same(call(C.prime_sum, n), int(SUM[n]), "prime_sum", n)
    same(call(C.prime_sum2, n), int(SUM[n]), "prime_sum2", n)
    same(call(C.lmo_bit, n), want, "lmo_bit", n)
    if n >= 2:
        _count_table(n)
    return n >= 10


def _count_table(n):
    d = call(C.prime_count, n)
    keys = {n//i for i in range(1, n + 1)} if n < 5000 else {n//i for i in range(1, math.isqrt(n) + 1)} | set(range(1, math.isqrt(n) + 1))
    for v in keys:
        if v >= 2:
            ensure(v in d, "prime_count", n, "has no entry for", v)
            same(d[v], int(PI[v]), "prime_count(n)[v]", (n, v))


@law("C07", st.one_of(st.integers(0, 400), ints(0, 20000)), quick=300)
def tables(n):
    """pi_table(n) for n up to 20000; non-trivial: n >= 2"""
    r = call(C.pi_table, n)
    ensure(isinstance(r, tuple) and len(r) == 2, "pi_table", n, "returned", r)
    same(list(r[0]), plist(0, n + 1), "primes of pi_table", n)
    same(list(r[1]), [int(x) for x in PI[:n + 1]], "table of pi_table", n)
    return n >= 2


@st.composite
def _past_table(draw, hi):
    kind = draw(st.sampled_from(["edge", "any", "cube", "square", "prime", "fourth", "dict"]))
    if kind == "edge":
        n = draw(st.integers(999983, 1000100))
    elif kind == "any":
        n = draw(st.integers(10**6, hi))
    elif kind == "cube":
        n = draw(st.integers(100, int(round(hi**(1/3.0)))))**3 + draw(st.integers(-1, 1))
    elif kind == "square":
        n = draw(st.integers(1000, math.isqrt(hi)))**2 + draw(st.integers(-1, 1))
    elif kind == "fourth":
        n = draw(st.integers(32, int(hi**0.25)))**4 + draw(st.integers(-1, 1))
    elif kind == "prime":
        n = int(PRIMES[draw(st.integers(78498, len(PRIMES) - 1))]) + draw(st.integers(-1, 0))
    else:
        n = draw(st.sampled_from(dict_ints(10**6, hi, "number_theory")))
    return min(max(n, 10**6), hi)


@law("C07", _past_table(LIM), quick=50, shards=4, cpu=120)
def counts_past_table(n):
    """10^6 <= n <= 1.25*10^7 (squares, cubes, fourth powers and primes +-1), where the real algorithms run; all non-trivial"""
    want = int(PI[n])
    for f in COUNTERS + [C.lmo_bit]:
        same(call(f, n), want, f.__name__, n)
    same(call(C.prime_sum, n), int(SUM[n]), "prime_sum", n)
    return True


@law("C07", st.one_of(ints(1500, 60000), ints(60000, 10**6)), quick=60, shards=2, cpu=60)
def counts_below_table(n):
    """1500 <= n <= 10^6: lmo_bit and the prime sums, which use no table; all non-trivial"""
    same(call(C.lmo_bit, n), int(PI[n]), "lmo_bit", n)
    same(call(C.prime_sum, n), int(SUM[n]), "prime_sum", n)
    same(call(C.prime_sum2, n), int(SUM[n]), "prime_sum2", n)
    _count_table(n)
    same([call(f, n) for f in COUNTERS], [int(PI[n])]*4, "legendre, meissel, lehmer, lmo", n)
    return True


_PHI_DIVISORS = sorted(math.prod(c) for r in range(1, 8) for c in itertools.combinations([2, 3, 5, 7, 11, 13, 17], r))


@st.composite
def _near_wheel(draw):
    """n with n//q on the edge of a multiple of a squarefree 17-smooth d, for small primes q > 17"""
    q = draw(st.sampled_from([19, 19, 19, 23, 29, 19*23, 1]))
    d = draw(st.sampled_from([d for d in _PHI_DIVISORS if d*q <= LIM]))
    lo = max(1, -(-10**6//(d*q)))
    m = draw(st.integers(lo, max(lo, LIM//(d*q))))
    return min(LIM, max(10**6, m*d*q + draw(st.sampled_from([0, 0, q - 1, q//2, -1]))))


@law("C07", _near_wheel(), quick=60, shards=4, cpu=120)
def counts_on_wheel_edges(n):
    """10^6 <= n <= 1.25*10^7 where n//q crosses a multiple of a divisor of 2*3*5*7*11*13*17, so that each floor term of the partial sieve matters; all non-trivial"""
    same([call(f, n) for f in COUNTERS], [int(PI[n])]*4, "legendre, meissel, lehmer, lmo", n)
    return True


@law("C07", ints(1, 10**6).flatmap(lambda n: st.just(n)), quick=600)
def counts_in_table(n):
    """1 <= n <= 10^6, the counters answering from the table; non-trivial: n >= 10"""
    same([call(f, n) for f in COUNTERS], [int(PI[n])]*4, "legendre, meissel, lehmer, lmo", n)
    return n >= 10


@law("C07", st.one_of(st.integers(2*10**7, 4*10**8), st.sampled_from([10**8, 10**8 + 7, 2**28, 464**3, 465**3 - 1, 10**4*10**4 - 1])), quick=3, thorough=20, shards=4, cpu=300)
def counts_large(n):
    """n up to 4*10^8: meissel, lehmer and lmo against sympy; all non-trivial"""
    want = int(sym_primepi(n))
    for f in (C.meissel, C.lehmer, C.lmo):
        same(call(f, n), want, f.__name__, n)
    same(call(C.prime_count, n)[n], want, "prime_count(n)[n]", n)
    return True
