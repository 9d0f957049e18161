"""Laws for the sizes of single arguments that the other laws keep small: long factorizations, big denominators, many items, many
parts, many terminals, and values at 10^9 and beyond."""
import itertools
import math
import random
from fractions import Fraction

from hypothesis import strategies as st
from sympy import factorint as sym_factorint, isprime as sym_isprime, nextprime as sym_nextprime, prevprime as sym_prevprime

from pbt import gens
from pbt.core import Each, Reject, call, call_list, ensure, is_int, law, must_raise, same
from pbt.gens import SMALL_PRIMES, big_primes, mk_graph
from pbt.pseudoprimes import STRONG
from pbt.props import algebra as AG
from pbt.props import combi as CB
from pbt.props import graphs_paths as GP
from pbt.props import nt_misc as NM
from pbt.props import nt_zn as NZ
from pbt.props import optim as OP

from rosemary.algebra.polynomials.polynomials import PolyZZ, Polynomial
from rosemary.combinatorics.enumeration import enumeration as EN
from rosemary.combinatorics.generation import partitions as GPA
from rosemary.combinatorics.optimization import exact_cover as EC
from rosemary.combinatorics.optimization import knapsack as KS
from rosemary.combinatorics.optimization import tsp as TS
from rosemary.graphs.algorithms import coloring as CO
from rosemary.graphs.algorithms import hamiltonian_paths as HP
from rosemary.graphs.algorithms import spanning_trees as S
from rosemary.graphs.algorithms import steiner_trees as ST
from rosemary.number_theory import arithmetic_progressions as AP
from rosemary.number_theory import classification as C
from rosemary.number_theory import continued_fractions as CF
from rosemary.number_theory import misc as M
from rosemary.number_theory import zn_arithmetic as Z
from rosemary.number_theory.arithmetic_functions import inverse_functions as INV
from rosemary.number_theory.arithmetic_functions import sieves as SV
from rosemary.number_theory.arithmetic_functions import sums as SU
from rosemary.number_theory.diophantine_equations import pell as P
from rosemary.number_theory.factorization import factorization as FA
from rosemary.number_theory.primes import primality as PR
from rosemary.number_theory.primes import prime_counting as PC
from rosemary.number_theory.primes import sieves as PS


# ---------------------------------------------------------------------------
# C05
# ---------------------------------------------------------------------------

@law("C05", st.tuples(st.one_of(st.sampled_from([n for (k, n) in STRONG]), st.integers(3, 1 << 100), st.integers(3, 1 << 400), st.integers(1 << 20, 1 << 48).map(lambda k: sym_nextprime(k)**2)), st.booleans()), quick=80, cpu=60)
def deterministic_test_beyond_forty_bits(case):
    """miller_rabin_deterministic: composites of any size with or without small witnesses, primes of up to 100 bits; non-trivial: above 40 bits"""
    n, prime = case
    if prime:
        n = sym_nextprime(n & ((1 << 100) - 1))
    n |= 1
    same(call(PR.miller_rabin_deterministic, n), sym_isprime(n), "miller_rabin_deterministic", n)
    return n > 1 << 40


MERSENNE = {2, 3, 5, 7, 13, 17, 19, 31, 61, 89, 107, 127, 521, 607, 1279, 2203, 2281, 3217}


@law("C05", Each(lambda tier: [p for p in range(3, 2300 if tier == "quick" else 3300) if sym_isprime(p)]), shards=2, cpu=60)
def mersenne_exponents(p):
    """every odd prime exponent in turn against the list of Mersenne primes; non-trivial: above 127"""
    same(call(PR.lucas_lehmer, p), p in MERSENNE, "lucas_lehmer", p)
    return p > 127


@law("C05", st.tuples(st.integers(60, 400), st.integers(0, 1 << 400)), quick=60, cpu=60)
def next_probable_primes_of_hundreds_of_bits(case):
    """the least prime above n; non-trivial: above 80 bits"""
    n = (1 << case[0]) + case[1] % (1 << case[0])
    same(call(PR.next_probable_prime, n), sym_nextprime(n), "next_probable_prime", n)
    return n > 1 << 80


@law("C05", st.tuples(st.integers(24, 38), st.integers(0, 1 << 60), st.integers(0, 3)), quick=40, cpu=60)
def random_prime_in_a_narrow_range(case):
    """two bounds around one or two primes of up to 38 bits: a prime between them, both bounds included; all non-trivial"""
    bits, r, mode = case
    p = sym_nextprime((1 << bits) + r % (1 << bits))
    q = sym_nextprime(p)
    a, b = [(p, p), (p, q), (sym_prevprime(p) + 1, p), (p, q - 1)][mode]
    x = call(PR.random_prime, a, b)
    ensure(x in ((p, q) if mode == 1 else (p,)), "random_prime", a, b, "gives", x)
    return True


# ---------------------------------------------------------------------------
# C07, C13, C12, C10, C06
# ---------------------------------------------------------------------------

PI = {10**9: 50847534, 2**30: 54400028, 2**31: 105097565, 2**32: 203280221, 10**10: 455052511, 2**33: 393615806}
PRIME_SUMS = {10**8: 279209790387276, 10**9: 24739512092254535}


@law("C07", Each(lambda tier: [10**9, 2**31] if tier == "quick" else sorted(PI), whole=False), cpu=120)
def prime_counts_of_thirty_bits(n):
    """known values of pi at 10^9 and powers of two, and the step at the next prime; all non-trivial"""
    p = sym_nextprime(n)
    for fn in (PC.lmo, PC.meissel, PC.lehmer):
        same(call(fn, n), PI[n], fn.__name__, n)
    same(call(PC.lehmer, p - 1), PI[n], "lehmer", p - 1)
    same(call(PC.meissel, p), PI[n] + 1, "meissel", p)
    same(call(PC.lmo, p), PI[n] + 1, "lmo", p)
    T = call(PC.prime_count, n)
    same(T[n], PI[n], "prime_count", n)
    return True


@law("C07", Each(lambda tier: [10**8] if tier == "quick" else sorted(PRIME_SUMS), whole=False), cpu=120)
def prime_sums_of_thirty_bits(n):
    """known sums of the primes; all non-trivial"""
    same(call(PC.prime_sum, n), PRIME_SUMS[n], "prime_sum", n)
    p = sym_nextprime(n)
    same(call(PC.prime_sum, p), PRIME_SUMS[n] + p, "prime_sum", p)
    return True


@law("C13", Each(lambda tier: [("phi", 10**8, 3039635516365908), ("phi", 10**9, 303963551173008414), ("mu", 10**8, 1928)]
                 + ([("mu", 10**9, -222)] if tier == "thorough" else []), whole=False), cpu=120)
def sums_at_powers_of_ten(case):
    """known values of the sums of phi and mu, and the step to the next argument; all non-trivial"""
    kind, n, want = case
    fn = SU.euler_phi_sum if kind == "phi" else SU.moebius_sum
    same(call(fn, n), want, fn.__name__, n)
    f = sym_factorint(n + 1)
    step = math.prod((p - 1)*p**(e - 1) for (p, e) in f.items()) if kind == "phi" else 0 if max(f.values()) > 1 else (-1)**len(f)
    same(call(fn, n + 1), want + step, fn.__name__, n + 1)
    return True


@law("C13", st.integers(10**10, 10**12), quick=6, cpu=90)
def sigma_sums_of_forty_bits(n):
    """the sum of d*floor(n/d) by blocks of equal quotients, and the step to the next argument; all non-trivial"""
    total, d = 0, 1
    while d <= n:
        q = n//d
        e = n//q
        total += q*(d + e)*(e - d + 1)//2
        d = e + 1
    same(call(SU.sigma_sum, n), total, "sigma_sum", n)
    s = math.prod((p**(e + 1) - 1)//(p - 1) for (p, e) in sym_factorint(n + 1).items())
    same(call(SU.sigma_sum, n + 1), total + s, "sigma_sum", n + 1)
    return True


@law("C06", Each(lambda tier: [(1 << 44, 300, s) for s in range(2)] + ([(1 << 46, 500, 0)] if tier == "thorough" else []), whole=False), cpu=120)
def prime_windows_at_forty_bits(case):
    """windows above 2^44, and around the square of a prime of 22 bits; all non-trivial"""
    a, width, seed = case
    r = random.Random(seed)
    p = sym_nextprime(math.isqrt(a) + r.randrange(10**5))
    for (lo, hi) in ((a + r.randrange(10**9), None), (p*p - 40, p*p + 1), (p*p, p*p + 60)):
        hi = lo + width if hi is None else hi
        same(list(call_list(PS.prime_range, lo, hi)), [x for x in range(lo, hi) if sym_isprime(x)], "prime_range", lo, hi)
    return True


@law("C12", Each(lambda tier: range(2 if tier == "quick" else 6), whole=False), cpu=120)
def moebius_windows_at_forty_bits(seed):
    """short windows above 2^38 and around the square of a prime of 20 bits; all non-trivial"""
    r = random.Random(seed)
    p = sym_nextprime(1 << 19 | r.randrange(1 << 18))
    for (lo, hi) in ((2**38 + r.randrange(2**38), None), (p*p - 20, p*p + 20)):
        hi = lo + 60 if hi is None else hi
        want = []
        for x in range(lo, hi):
            f = sym_factorint(x)
            want.append(0 if max(f.values()) > 1 else (-1)**len(f))
        got = call_list(SV.moebius_range, lo, hi)
        same([v[1] if isinstance(v, tuple) else v for v in got], want, "moebius_range", lo, hi)
    return True


@law("C10", Each(lambda tier: range(2 if tier == "quick" else 6), whole=False), cpu=120)
def factored_windows_at_thirty_bits(seed):
    """short windows above 2^34 and around the square of a prime; all non-trivial"""
    r = random.Random(seed)
    p = sym_nextprime(1 << 17 | r.randrange(1 << 16))
    for (lo, hi) in ((2**34 + r.randrange(2**34), None), (p*p - 15, p*p + 15)):
        hi = lo + 50 if hi is None else hi
        got = call_list(FA.factored_range, lo, hi)
        same([(n, [tuple(t) for t in f]) for (n, f) in got], [(n, sorted(sym_factorint(n).items())) for n in range(lo, hi)], "factored_range", lo, hi)
    return True


# ---------------------------------------------------------------------------
# C14
# ---------------------------------------------------------------------------

def preimages(n):
    """All m with phi(m) = n, by choosing the largest prime divisor first."""
    f = sym_factorint(n)
    D = [1]
    for (p, e) in f.items():
        D = [d*p**k for d in D for k in range(e + 1)]
    ps = sorted((d + 1 for d in D if sym_isprime(d + 1)), reverse=True)
    memo = {}

    def go(m, i):
        """those with all prime divisors among ps[i:]"""
        if (m, i) in memo:
            return memo[m, i]
        out = [1] if m == 1 else []
        for j in range(i, len(ps)):
            p = ps[j]
            if m % (p - 1):
                continue
            q, t = m//(p - 1), p
            while True:
                out += [t*x for x in go(q, j + 1)]
                if q % p:
                    break
                q //= p
                t *= p
        memo[m, i] = out
        return out
    return sorted(go(n, 0))


def partial_preimages(n):
    """How many odd m have phi(m) dividing n: what the search of the package goes through."""
    D = [1]
    for (p, e) in sym_factorint(n).items():
        D = [d*p**k for d in D for k in range(e + 1)]
    count = {1: 1}
    ps = sorted(d + 1 for d in D if d > 1 and sym_isprime(d + 1))
    if sum(map(math.isqrt, ps)) > 10**7:        # is_prime proves them by trial division
        return 10**9
    for p in ps:
        new = dict(count)
        for (d, c) in count.items():
            q = d*(p - 1)
            while n % q == 0:
                new[q] = new.get(q, 0) + c
                q *= p
        count = new
        if sum(count.values()) > 10**7:
            break
    return sum(count.values())


_smooth_n = st.tuples(st.integers(1, 60), st.integers(0, 12), st.integers(0, 4), st.integers(0, 2), st.sampled_from([1, 1, 7, 11, 13, 23, 89, 1013, 10007])).map(
    lambda t: 2**t[0]*3**t[1]*5**t[2]*7**t[3]*t[4])


@law("C14", st.one_of(_smooth_n, st.integers(4, 9).map(math.factorial), st.integers(1, 1 << 40).map(lambda x: 2*x), st.sampled_from([p for p in big_primes() if p < 1 << 44]).map(lambda p: p - 1)), quick=120, shards=2, cpu=90)
def inverse_of_large_values(n):
    """the complete list of preimages of n up to 80 bits without prime d + 1 above 46 bits, d | n, against a search by the largest prime divisor; non-trivial: n > 2^31 and it has preimages"""
    f = sym_factorint(n)
    if math.prod(e + 1 for e in f.values()) > 500 or n > 1 << 80 or partial_preimages(n) > 150000:
        raise Reject()
    want = preimages(n)
    same(call(INV.euler_phi_inverse, n), want, "euler_phi_inverse", n)
    same(call(INV.euler_phi_inverse, sorted(f.items())), want, "euler_phi_inverse of the factorization of", n)
    return n > 1 << 31 and bool(want)


# ---------------------------------------------------------------------------
# C15, C16
# ---------------------------------------------------------------------------

@law("C15", st.tuples(st.integers(1 << 30, 1 << 37), st.integers(2, 10**12), st.integers(1, 10**12)), quick=15, cpu=90)
def logarithms_modulo_primes_of_forty_bits(case):
    """the target is a power of the base: a positive exponent that gives it; all non-trivial"""
    p, a, e = sym_nextprime(case[0]), case[1], case[2]
    if a % p == 0:
        raise Reject()
    b = pow(a, e, p)
    k = call(Z.discrete_log, a, b, p)
    ensure(is_int(k) and k >= 1 and pow(a, k, p) == b, "discrete_log", a, b, p, "gives", k)
    return True


@law("C15", st.integers(10**3, 10**9), quick=80, cpu=60)
def fibonacci_roots_of_large_primes(n):
    """the roots of g^2 = g + 1 that are primitive; non-trivial: there are some"""
    p = sym_nextprime(n)
    qs = list(sym_factorint(p - 1))
    want = []
    if pow(5, (p - 1)//2, p) == 1:
        s = call(Z.sqrts_mod_p, 5, p)
        ensure(len(s) == 2 and all((x*x - 5) % p == 0 for x in s), "sqrts_mod_p", 5, p, "gives", s)
        h = pow(2, -1, p)
        want = sorted(g for g in ((1 + x)*h % p for x in s) if all(pow(g, (p - 1)//q, p) != 1 for q in qs))
    same(call(Z.fibonacci_primitive_roots, p), want, "fibonacci_primitive_roots", p)
    return bool(want)


@law("C16", st.tuples(st.lists(st.tuples(st.sampled_from(SMALL_PRIMES[:12]), st.integers(1, 3)), min_size=5, max_size=8, unique_by=lambda t: t[0]),
                      st.integers(1, 10**30), st.integers(-10**30, 10**30), st.integers(1, 10**6)), quick=60, cpu=60)
def roots_modulo_many_primes(case):
    """five to eight prime factors: all square roots of a square and all roots of a factored quadratic, counted prime by prime;
    non-trivial: at least 64 roots"""
    f, r, s, a = case
    f = sorted(f)
    n = math.prod(p**e for (p, e) in f)
    cnt = math.prod(NZ.count_sqrts(r*r, p, e) for (p, e) in f)
    big = False
    if cnt <= 4000:
        for kw in ({}, {"n_factorization": list(f)}):
            got = call(Z.sqrts_mod_n, r*r, n, **kw)
            ensure(all((x*x - r*r) % n == 0 and 0 <= x < n for x in got), "sqrts_mod_n", r*r, n, "gives", got)
            ensure(all(x < y for (x, y) in zip(got, got[1:])), "sqrts_mod_n not sorted and distinct", r*r, n)
            same(len(got), cnt, "number of sqrts_mod_n", r*r, n)
        big = cnt >= 64
    fo = [(p, e) for (p, e) in f if p > 2 and a % p]
    m = math.prod(p**e for (p, e) in fo)
    cnt = math.prod(NZ.count_sqrts((r - s)**2*a*a, p, e) for (p, e) in fo)
    if m > 2 and cnt <= 4000:
        coefs = [a, -a*(r + s), a*r*s]
        got = call(Z.quadratic_congruence, coefs, m)
        ensure(all((coefs[0]*x*x + coefs[1]*x + coefs[2]) % m == 0 and 0 <= x < m for x in got), "quadratic_congruence", coefs, m)
        ensure(all(x < y for (x, y) in zip(got, got[1:])), "quadratic_congruence not sorted and distinct", coefs, m)
        same(len(got), cnt, "number of roots of quadratic_congruence", coefs, m)
        big = big or cnt >= 64
    return big


# ---------------------------------------------------------------------------
# C17, C18, C19, C20
# ---------------------------------------------------------------------------

@law("C17", st.tuples(st.integers(2, 1 << 60), st.integers(2, 40), st.sampled_from([-1, 0, 0, 0, 1])), quick=80, cpu=60)
def powers_by_roots_alone(case):
    """is_power2 of large powers and their neighbours: the least exponent for which a root exists; non-trivial: a power"""
    b, k, d = case
    n = b**k + d
    if n < 4 or n.bit_length() > 700:
        raise Reject()
    want = False
    for j in range(2, n.bit_length() + 1):
        lo, hi = 1, 1 << (n.bit_length()//j + 1)
        while hi - lo > 1:
            mid = (lo + hi)//2
            if mid**j <= n:
                lo = mid
            else:
                hi = mid
        if lo**j == n:
            want = (lo, j)
            break
    same(call(C.is_power2, n), want, "is_power2", n)
    return bool(want)


@law("C17", st.tuples(st.integers(6, 120), st.integers(1, 12), st.integers(0, 10**9)), quick=80, cpu=60)
def powers_given_by_long_factorizations(case):
    """factorizations with up to 120 primes: square and power tests by the exponents; non-trivial: the common exponent is above one"""
    k, g, seed = case
    r = random.Random(seed)
    exps = [g*r.randint(1, 4) for _ in range(k)]
    if r.random() < 0.3:
        exps[r.choice([0, -1, k//2])] += 1
    f = list(zip(sorted(r.sample(SMALL_PRIMES, k) if len(SMALL_PRIMES) >= k else SMALL_PRIMES[:k]), exps))
    d = math.gcd(*(e for (p, e) in f))
    root = lambda m: math.prod(p**(e//m) for (p, e) in f)
    same(call(C.is_square, list(f)), root(2) if d % 2 == 0 else False, "is_square", f)
    same(call(C.is_power, list(f)), (root(d), d) if d > 1 else False, "is_power", f)
    for j in {1, 2, 3, d, d + 1, 2*d}:
        same(call(C.is_power, list(f), j), (root(j), j) if d % j == 0 else False, "is_power", f, j)
    same(call(C.is_squarefree, list(f)), all(e == 1 for (p, e) in f), "is_squarefree", f)
    return d > 1


@law("C18", st.tuples(st.one_of(st.integers(2, 10**6), st.integers(2, 1 << 200)), st.one_of(st.integers(-10**4, 10**4), st.integers(-1 << 120, 1 << 120)),
                      st.one_of(st.integers(-300, 300), st.integers(-1 << 14, 1 << 14)).filter(bool)), quick=150, cpu=90)
def surds_with_big_parts(case):
    """(p + sqrt(d))/q with p of up to 120 bits and q of up to 14: the first terms by exact floors; non-trivial: p or q above 2^10"""
    d, p, q = case
    if math.isqrt(d)**2 == d:
        raise Reject()
    # the constructor finds the whole period: keep it short by taking d near a square
    s = math.isqrt(d)
    d = s*s + 1 if (d - s*s) % 2 else s*s + 2
    if s > 10**5 and abs(q) > 60:
        q = q % 60 + 1
    x = call(CF.QuadraticIrrational, d, p, q)
    got = list(itertools.islice(x.partial_quotients(), 40))
    same(got, NM.cf_ref(d, p, q, 40), "partial quotients of", (d, p, q))
    return abs(p) > 1 << 10 or abs(q) > 1 << 10


SMALL_UNITS = [(d, NM.pell_ref(d)) for d in range(2, 300) if math.isqrt(d)**2 != d and NM.pell_ref(d)[0] <= 400]


@law("C19", st.tuples(st.sampled_from(SMALL_UNITS), st.one_of(st.integers(-40, 40), st.integers(-400, 400)).filter(bool), st.integers(12, 160)), quick=200, shards=2, cpu=60)
def solutions_below_huge_bounds(case):
    """all positive solutions up to bounds of 160 bits, as orbits of the small ones under the unit; non-trivial: there are some"""
    (D, (t, u)), N, bits = case
    base = int(math.sqrt(abs(N))*(t/math.sqrt(D) + u)) + 5
    B = 1 << bits
    sols = set()
    small = NM.positive_solutions(D, N, base)
    for (x, y) in [(x*s, y) for (x, y) in small for s in (1, -1)] + ([(math.isqrt(N), 0)] if N > 0 and math.isqrt(N)**2 == N else []):
        k = 0
        while k < 6 or max(abs(x), abs(y)) <= B:
            if 0 < x <= B and 0 < y <= B:
                sols.add((x, y))
            x, y = t*x + D*u*y, u*x + t*y
            k += 1
    for b in {B, B - 1} | {max(s) - e for s in sorted(sols)[-2:] for e in (0, 1)}:
        got = call(lambda: list(P.pell_solution_generator(D, N, b)))
        same(sorted(got), sorted(s for s in sols if max(s) <= b), "pell_solution_generator", D, N, b)
    return bool(sols)


@law("C20", st.tuples(st.lists(st.tuples(st.sampled_from(SMALL_PRIMES[:30]), st.integers(1, 4)), min_size=3, max_size=12, unique_by=lambda t: t[0]), st.integers(0, 10**40), st.integers(-1, 1)), quick=80, cpu=60)
def largest_divisors_of_huge_numbers(case):
    """numbers of up to 200 bits with thousands of divisors; non-trivial: at least 200 divisors, bound above 2^53"""
    f, r, d = case
    n = math.prod(p**e for (p, e) in f)
    D = [1]
    for (p, e) in f:
        D = [x*p**k for x in D for k in range(e + 1)]
        if len(D) > 20000:
            raise Reject()
    D.sort()
    b = D[len(D)*3//4 + r % (len(D) - len(D)*3//4)] + d if d else r % n + 1
    if not 1 <= b <= n:
        raise Reject()
    same(call(M.largest_divisor, n, b), max(x for x in D if x <= b), "largest_divisor", n, b)
    return len(D) >= 200 and b > 1 << 53


@law("C20", st.tuples(st.integers(40, 130), st.sampled_from([300, 2000, 10**5, 1 << 70]), st.integers(2, 30), st.integers(0, 10**9)), quick=60, cpu=60)
def progressions_in_long_lists(case):
    """lists of up to 160 numbers of up to 70 bits with a progression hidden in them, and lists free of three terms; non-trivial: the longest has five terms"""
    size, top, k, seed = case
    r = random.Random(seed)
    A = {r.randrange(1, top) for _ in range(size)}
    step = r.randrange(1, max(2, top//40))
    start = r.randrange(1, top)
    A |= {start + i*step for i in range(k)}
    A = sorted(A)
    found = NM.check_ap(A)
    free = [int(bin(i)[2:], 3) + 1 for i in range(size)]        # no digit 2 in base three
    same(call(AP.has_three_term_ap, free), False, "has_three_term_ap", free)
    return found and len(NM.aps_ref(A)[0]) >= 5


# ---------------------------------------------------------------------------
# C22
# ---------------------------------------------------------------------------

@law("C22", st.tuples(st.integers(5, 26), st.integers(5, 26), st.integers(0, 20), st.sampled_from([2, 9, 1000, 1 << 40]), st.integers(0, 10**9)), quick=25, cpu=90)
def gcds_of_long_polynomials(case):
    """gcd(f*h, g*h) and pseudo-division for degrees up to 45, coefficients up to 40 bits; non-trivial: the gcd has positive degree"""
    a, b, c, top, seed = case
    r = random.Random(seed)
    poly = lambda n: [r.randint(-top, top) for _ in range(n)] + [r.randint(1, top)]
    A, B, H = poly(a), poly(b), poly(c)
    F, G = AG.mul_ref(A, H), AG.mul_ref(B, H)
    want = AG.gcd_ref(F, G)
    same(AG.co(call(PolyZZ(list(F)).gcd, PolyZZ(list(G)))), want, "gcd", F, G)
    if len(F) < len(G):
        F, G = G, F
    p, q = Polynomial(list(F)), Polynomial(list(G))
    res = call(p.pseudo_quo_rem, q)
    Q, R = AG.co(res[0]), AG.co(res[1])
    e = len(F) - len(G) + 1
    lhs = [x*G[-1]**e for x in F]
    rhs = AG.mul_ref(Q, G) + [0]*len(F)
    for (i, x) in enumerate(R):
        rhs[i] += x
    same(AG.strip(rhs), AG.strip(lhs), "pseudo-division of lengths", len(F), len(G))
    ensure(len(R) < len(G), "degree of the pseudo-remainder", len(R), len(G))
    return len(want) > 1


# ---------------------------------------------------------------------------
# C25, C27, C28, C30, C31
# ---------------------------------------------------------------------------

@law("C25", st.tuples(st.lists(st.integers(1, 40), min_size=7, max_size=40), st.integers(0, 60)), quick=80, cpu=60)
def multinomials_of_many_parts(case):
    """up to 40 parts; all non-trivial"""
    ks, extra = case
    n = sum(ks) + extra
    want = math.factorial(n)
    for k in ks:
        want //= math.factorial(k)
    same(call(EN.multinomial, n, list(ks)), want, "multinomial", n, ks)
    return True


@law("C25", st.tuples(st.lists(st.integers(1, 12), min_size=6, max_size=30), st.integers(1, 24)), quick=80, cpu=60)
def necklaces_of_many_colors(case):
    """up to 30 colors with given numbers of beads, by Burnside; non-trivial: the numbers have a common divisor"""
    w, d = case
    weights = [d*x for x in w]
    m = sum(weights)
    total = 0
    for i in range(m):
        g = math.gcd(i, m)
        if all(x*g % m == 0 for x in weights):
            t = math.factorial(g)
            for x in weights:
                t //= math.factorial(x*g//m)
            total += t
    same(call(EN.necklaces, m, len(w), list(weights)), total//m, "necklaces", m, len(w), weights)
    return math.gcd(*weights) > 1


def count_partitions(n, parts, m, distinct):
    """Number of partitions of n into the given parts, with m parts if m is not None."""
    T = {(0, 0): 1}
    for p in parts:
        new = dict(T) if distinct else {}
        if distinct:
            for ((s, k), c) in T.items():
                if s + p <= n:
                    new[s + p, k + 1] = new.get((s + p, k + 1), 0) + c
        else:
            new = dict(T)
            for s in range(p, n + 1):
                for k in range(1, n//p + n + 1):
                    if (s - p, k - 1) in new:
                        new[s, k] = new.get((s, k), 0) + new[s - p, k - 1]
                    elif k > n:
                        break
        T = new
    return sum(c for ((s, k), c) in T.items() if s == n and (m is None or k == m))


@law("C27", st.one_of(
    st.tuples(st.integers(26, 46), st.none(), st.none(), st.just(False)),
    st.tuples(st.integers(30, 75), st.none(), st.none(), st.just(True)),
    st.tuples(st.integers(30, 90), st.none(), st.integers(1, 5), st.just(False)),
    st.tuples(st.integers(30, 60), st.none(), st.integers(20, 60), st.just(False)),
    st.tuples(st.integers(30, 60), st.lists(st.integers(1, 60), min_size=1, max_size=12, unique=True), st.one_of(st.none(), st.integers(1, 12)), st.booleans())),
    quick=60, cpu=90)
def partitions_of_larger_numbers(case):
    """n up to 90 with restrictions: the number of partitions by a table, every one valid, none twice, in decreasing order of parts;
    non-trivial: at least 100 partitions"""
    n, parts, m, distinct = case
    kw = {}
    if parts is not None:
        kw["parts"] = list(parts)
    if m is not None:
        kw["num_parts"] = m
    if distinct:
        kw["distinct"] = True
    want = count_partitions(n, parts if parts is not None else range(1, n + 1), m, distinct)
    if want > 60000:
        raise Reject()
    got = [tuple(p) for p in call_list(GPA.integer_partitions, n, limit=want, **kw)]
    same(len(got), want, "number of integer_partitions", n, kw)
    same(len(set(got)), want, "different integer_partitions", n, kw)
    for p in got:
        ensure(sum(p) == n and all(a >= b for (a, b) in zip(p, p[1:])), "integer_partitions", n, kw, "has", p)
        ensure(parts is None or set(p) <= set(parts), "integer_partitions", n, kw, "has", p)
        ensure(m is None or len(p) == m, "integer_partitions", n, kw, "has", p)
        ensure(not distinct or len(set(p)) == len(p), "integer_partitions", n, kw, "has", p)
    return want >= 100


@law("C28", st.tuples(st.integers(11, 16), st.sampled_from([(30, 20), (1000, 12), (10**12, 50), (12, 300)]), st.integers(5, 95), st.integers(0, 10**9)), quick=60, shards=2, cpu=90)
def knapsacks_of_sixteen_items(case):
    """all exact solvers on up to 16 items; non-trivial: something is left out"""
    n, (vmax, wmax), part, seed = case
    r = random.Random(seed)
    items = [(r.randint(0, vmax), r.randint(1, wmax)) for _ in range(n)]
    cap = sum(w for (v, w) in items)*part//100
    want = OP.knap_ref(items, cap)
    for fn in (KS.depth_first, KS.dynamic_programming, KS.branch_and_bound_depth_first):
        res = call(fn, items, cap)
        same(res[0], want, fn.__name__, "value", items, cap)
        OP.chosen_ok(items, [(t[0], t[1]) for t in res[1]], cap, want, fn.__name__)
    return want < sum(v for (v, w) in items)


@law("C30", st.tuples(st.sampled_from([8, 9]), st.booleans(), st.sampled_from([3, 60, 10**12]), st.integers(0, 10**9)), quick=6, shards=2, cpu=120)
def exact_tours_of_nine(case):
    """eight and nine cities, symmetric or not: both exact searches find the optimum; all non-trivial"""
    n, sym, top, seed = case
    r = random.Random(seed)
    D = [[r.randint(1, top) for _ in range(n)] for _ in range(n)]
    for i in range(n):
        for j in range(i):
            if sym:
                D[i][j] = D[j][i]
        D[i][i] = float("inf")
    want = OP.held_karp(D)
    pts = [(i, (i*i*3) % 7) for i in range(n)]
    for fn in (TS.depth_first, TS.branch_and_bound):
        c, path = call(fn, pts, [list(row) for row in D])
        OP.check_tour(path, n, fn.__name__)
        same((c, OP.tour_cost(path, D)), (want, want), fn.__name__, "cost")
    return True


@st.composite
def long_puzzles(draw):
    """A true sum of many or long numbers, with digits renamed to letters."""
    kind = draw(st.sampled_from(["many", "long", "both"]))
    size = st.integers(1, 10**5) if kind == "many" else st.integers(10**6, 10**16)
    nums = draw(st.lists(size, min_size=4 if kind != "long" else 2, max_size=12 if kind == "many" else 3 if kind == "long" else 5))
    total = sum(nums)
    right = [total]
    if draw(st.booleans()):
        a = draw(st.integers(1, total - 1))
        right = [a, total - a]
    perm = draw(st.permutations("abcdefghij"))
    ren = lambda v: "".join(perm[int(c)] for c in str(v))
    return ([ren(v) for v in nums], [ren(v) for v in right], nums, right)


@law("C31", long_puzzles(), quick=25, shards=3, cpu=120)
def alphametic_of_many_words(case):
    """sums of up to 12 words or words of up to 17 letters: the planted solution is found and all solutions are valid; non-trivial: seven or more letters"""
    return CB.alphametic_planted(case)


# ---------------------------------------------------------------------------
# C39, C40, C44
# ---------------------------------------------------------------------------

@law("C39", st.tuples(gens.seeded_graphs(20, 45, weights=(1, 3, 20, 10**6)), st.integers(2, 60)), quick=25, shards=2, cpu=90)
def lightest_spanning_trees_of_dozens(case):
    """20 to 45 vertices: the weights of the lightest trees by splitting, all different and spanning; non-trivial: at least three"""
    args, k = case
    lit = gens.seeded_graph(*args, connected=True)
    if len(lit[1]) > 120:
        raise Reject()
    want = GP.best_trees(lit, k)
    got = call_list(S.gabow, call(mk_graph, lit), k, limit=k + 2)
    same([w for (w, T) in got], want, "weights of the", k, "lightest spanning trees")
    for (w, T) in got:
        GP.check_forest(lit, w, T, (w, len(lit[0]) - 1), "gabow")
    same(len({tuple(sorted((min(e[:2]), max(e[:2])) for e in T)) for (w, T) in got}), len(got), "different trees")
    return len(got) >= 3


@law("C40", st.tuples(gens.seeded_graphs(25, 70, weights=(1, 4, 50)), st.integers(10, 70), st.integers(0, 10**9)), quick=25, shards=2, cpu=90)
def trees_over_many_terminals(case):
    """ten or more terminals: a tree over them whose leaves are terminals, not heavier than the tree of their distances, which is at most
    twice the optimum; with every vertex a terminal it is a minimum spanning tree; non-trivial: some vertex is no terminal"""
    args, t, seed = case
    lit = gens.seeded_graph(*args, connected=True)
    r = random.Random(seed)
    V = list(lit[0])
    terms = r.sample(V, min(t, len(V)))
    adj, dist = GP.all_pairs(lit)
    pairs = sorted((dist[a][b], a, b) for (a, b) in itertools.combinations(sorted(terms), 2))
    closure, _ = GP.forest_weight(sorted(terms), [(a, b, w) for (w, a, b) in pairs])
    mst, _ = GP.forest_weight(sorted(V), lit[1])
    g = call(mk_graph, lit)
    for fn in (ST.distance_network_heuristic, ST.minimum_cost_paths_heuristic):
        w, edges = call(fn, g, list(terms))
        same(sum(adj[u][v] for (u, v) in edges), w, fn.__name__, "weight of the reported edges")
        X = {x for e in edges for x in e}
        ensure(set(terms) <= X, fn.__name__, "misses terminals")
        same(len(edges), len(X) - 1, fn.__name__, "number of edges")
        same(GP.forest_weight(sorted(X), [(u, v, 0) for (u, v) in edges])[1], len(X) - 1, fn.__name__, "edges joining components")
        for x in X - set(terms):
            ensure(sum(1 for e in edges if x in e) >= 2, fn.__name__, "keeps the leaf", x)
        ensure(w <= closure, fn.__name__, "weight", w, "above the tree of distances", closure)
        if len(terms) == len(V):
            same(w, mst, fn.__name__, "weight with every vertex a terminal")
    return len(terms) < len(V)


@law("C44", st.tuples(st.integers(40, 110), st.sampled_from([0.05, 0.2, 0.5]), st.integers(0, 10**9), st.sampled_from([0, 5, 12])), quick=20, shards=2, cpu=90)
def greedy_classes_of_hundreds(case):
    """maxis with greedy independent sets, and repeated passes of greedy_sequential, on up to 110 vertices: proper colorings, later passes
    never use more colors; all non-trivial"""
    n, density, seed, limit = case
    r = random.Random(seed)
    edges = [(u, v, 1) for (u, v) in itertools.combinations(range(n), 2) if r.random() < density]
    g = call(mk_graph, (list(range(n)), edges))

    def proper(k, classes, what):
        same(len(classes), k, what, "number of classes")
        where = {u: i for (i, c) in enumerate(classes) for u in c}
        same((len(where), sum(map(len, classes))), (n, n), what, "vertices in the classes")
        ensure(all(where[u] != where[v] for (u, v, w) in edges), what, "gives two neighbors one color")
    k, classes = call(CO.maxis, g, color_limit=limit, mis_limit=0, use_greedy=True)
    proper(k, classes, "maxis")
    order = list(range(n))
    r.shuffle(order)
    last = None
    for passes in (1, 2, 4):
        k, classes = call(CO.greedy_sequential, g, vertices=list(order), passes=passes)
        proper(k, classes, "greedy_sequential with {} passes".format(passes))
        ensure(last is None or k <= last, "greedy_sequential uses", k, "colors after", passes, "passes, before", last)
        last = k
    same(call(g.num_edges), len(edges), "the graph is not modified")
    return True


# ---------------------------------------------------------------------------
# Found by mutants that replace integers by machine words and floats
# ---------------------------------------------------------------------------

@law("C18", st.integers(1 << 20, 1 << 300), quick=60, cpu=60)
def huge_squares_under_the_root(s):
    """d = s*s of up to 600 bits is refused in every form, its neighbours are not; all non-trivial"""
    for (p, q) in ((0, 1), (1, 2), (-3, 5), (1 << 70, -7)):
        must_raise(ValueError, CF.QuadraticIrrational, s*s, p, q)
    x = call(CF.QuadraticIrrational, s*s + 1, 0, 1)
    same(list(itertools.islice(x.partial_quotients(), 4)), [s, 2*s, 2*s, 2*s], "partial quotients of sqrt", s*s + 1)
    return True


@law("C19", st.integers(1 << 20, 1 << 200), quick=60, cpu=60)
def pell_of_huge_squares(s):
    """D = s*s is refused; D = s*s + 1 and s*s - 1 have the solutions known by formula; all non-trivial"""
    for n in (1, -1):
        must_raise(ValueError, P.pell_fundamental_solution, s*s, n)
        must_raise(ValueError, P.PellEquation, s*s, n)
    must_raise(ValueError, P.pell_minimal_positive_solutions, s*s, 3)
    must_raise(ValueError, lambda: next(P.pell_small(s*s, 1)))
    same(call(P.pell_fundamental_solution, s*s + 1, -1), (s, 1), "pell_fundamental_solution", s*s + 1, -1)
    same(call(P.pell_fundamental_solution, s*s + 1), (2*s*s + 1, 2*s), "pell_fundamental_solution", s*s + 1)
    same(call(P.pell_fundamental_solution, s*s - 1), (s, 1), "pell_fundamental_solution", s*s - 1)
    must_raise(ValueError, P.pell_fundamental_solution, s*s - 1, -1)
    return True


@law("C28", st.tuples(st.integers(3, 13), st.sampled_from([31, 33, 53, 64, 90]), st.integers(5, 95), st.integers(0, 10**9)), quick=60, cpu=60)
def knapsacks_of_heavy_items(case):
    """weights and values of 31 to 90 bits, bounds off by one unit; non-trivial: something is left out"""
    n, bits, part, seed = case
    r = random.Random(seed)
    items = [(r.getrandbits(bits) + 1, r.getrandbits(bits) + 1) for _ in range(n)]
    some = r.sample(items, r.randint(1, n))
    cap = r.choice([sum(w for (v, w) in items)*part//100, sum(w for (v, w) in some), sum(w for (v, w) in some) - 1])
    want = OP.knap_ref(items, cap)
    for fn in (KS.depth_first, KS.branch_and_bound_depth_first):
        res = call(fn, items, cap)
        same(res[0], want, fn.__name__, "value", items, cap)
        OP.chosen_ok(items, [(t[0], t[1]) for t in res[1]], cap, want, fn.__name__)
    return want < sum(v for (v, w) in items)


@law("C29", Each(lambda tier: range(1, 16), whole=False), cpu=60)
def boards_of_hundreds_of_cells(n):
    """the pieces of domino, Latin square and Langford problems as sets of cells, without fixing the numbering of the cells: how many,
    how many cells each, how often each cell is used; non-trivial: more than 64 cells"""
    def cells(ints):
        where = {}
        for x in ints:
            i = 0
            while x:
                if x & 1:
                    where[i] = where.get(i, 0) + 1
                x >>= 1
                i += 1
        return where
    D = call(EC.domino_ints, n)
    same((len(D), len(set(D)), {bin(x).count("1") for x in D} - {2}), (2*n*(n - 1), 2*n*(n - 1), set()), "number of dominoes", n)
    if n > 1:
        grid = sorted((i > 0) + (i < n - 1) + (j > 0) + (j < n - 1) for i in range(n) for j in range(n))
        same(sorted(cells(D).values()), grid, "dominoes over each cell", n)
    L = call(EC.langford_ints, 3*n)
    m = 3*n
    same((len(L), len(set(L)), {bin(x).count("1") for x in L} - {3}), (sum(2*m - p - 1 for p in range(1, m + 1)),)*2 + (set(),), "number of Langford rows", m)
    want = sorted([2*m - p - 1 for p in range(1, m + 1)] + [sum((i - p - 1 >= 0) + (i + p + 1 < 2*m) for p in range(1, m + 1)) for i in range(2*m)])
    same(sorted(cells(L).values()), want, "Langford rows over each column", m)
    if n < 9:
        Q = call(EC.latin_square_ints, n)
        same((len(Q), len(set(Q)), {bin(x).count("1") for x in Q} - {3}), (n**3, n**3, set()), "number of entries", n)
        same(set(cells(Q).values()), {n}, "entries over each condition", n)
        same(len(cells(Q)), 3*n*n, "conditions", n)
    return n > 8


@law("C45", Each(lambda tier: [(k, m, s) for s in range(2) for (k, m) in ((2, 5), (3, 4), (5, 5), (9, 4), (14, 6), (18, 5))], whole=False), cpu=60)
def paths_through_chains_of_cliques(case):
    """cliques joined in a row by single edges: products of factorials, above 2^62 for the longest; non-trivial: more than 64 vertices"""
    k, m, seed = case
    V = list(range(k*m))
    if seed:
        random.Random(seed).shuffle(V)
    E = [(V[b*m + i], V[b*m + j], 1) for b in range(k) for i in range(m) for j in range(i)] + [(V[b*m - 1], V[b*m], 1) for b in range(1, k)]
    want = 2*math.factorial(m - 1)**2*math.factorial(m - 2)**(k - 2)
    g = call(mk_graph, (sorted(V), E))
    same(call(HP.number_of_hamiltonian_paths_bits_con, g), want, "number_of_hamiltonian_paths_bits_con", case)
    if k*m <= 16:
        for fn in (HP.number_of_hamiltonian_paths, HP.number_of_hamiltonian_paths_bits):
            same(call(fn, g), want, fn.__name__, case)
    return k*m > 64
