"""C11-C14: arithmetic functions, their sieves, their summatory functions, and inverses of Euler's phi."""
import functools
import math

import numpy as np
from hypothesis import strategies as st

from pbt.core import Each, Reject, call, call_list, ensure, is_int, law, must_raise, same
from pbt.gens import SMALL_PRIMES, big_primes, factored, ints, product
from pbt.props.nt_factor import SPF, divisors_ref, fac_ref, small_factor

from rosemary.number_theory.arithmetic_functions import functions as F
from rosemary.number_theory.arithmetic_functions import inverse_functions as I
from rosemary.number_theory.arithmetic_functions import sieves as V
from rosemary.number_theory.arithmetic_functions import sums as M


def phi_ref(f):
    return math.prod(p**(e - 1)*(p - 1) for (p, e) in f)


def mu_ref(f):
    return 0 if any(e > 1 for (p, e) in f) else (-1)**len(f)


def sigma_ref(f, k):
    return math.prod(sum(p**(i*k) for i in range(e + 1)) for (p, e) in f)


def tau_ref(f):
    return math.prod(e + 1 for (p, e) in f)


def lambda_ref(f):
    return math.lcm(1, *[(p**(e - 1)*(p - 1) if p > 2 or e <= 2 else 1 << (e - 2)) for (p, e) in f])


TOP = 1200000


@functools.lru_cache(None)
def _tables(N=TOP):
    phi = np.arange(N + 1, dtype=np.int64)
    mu = np.ones(N + 1, dtype=np.int64)
    comp = np.zeros(N + 1, dtype=bool)
    for p in range(2, N + 1):
        if comp[p]:
            continue
        if p*p <= N:
            comp[p*p::p] = True
        phi[p::p] -= phi[p::p]//p
        mu[p::p] *= -1
        if p*p <= N:
            mu[p*p::p*p] = 0
    mu[0] = phi[0] = 0
    return phi, mu


@functools.lru_cache(None)
def _prefix():
    phi, mu = _tables()
    k = np.arange(TOP + 1, dtype=np.int64)
    return np.cumsum(phi), np.cumsum(mu), np.cumsum(phi*k)


@functools.lru_cache(None)
def _sigma_table(N, k):
    out = [0]*(N + 1)
    for d in range(1, N + 1):
        dk = d**k
        for m in range(d, N + 1, d):
            out[m] += dk
    return out


# ------------------------------------------------------------------ C11

@law("C11", Each(lambda tier: iter(range(1, 3000 if tier == "quick" else 60000))))
def values_small(n):
    """every n < 3000 against divisor and coprimality counts from the definition; non-trivial: two primes"""
    f = small_factor(n)
    D = divisors_ref(f)
    if n <= 400:
        units = [a for a in range(1, n + 1) if math.gcd(a, n) == 1]
        phi = len(units)
        lam = 1
        while n > 1 and any(pow(a, lam, n) != 1 for a in units):
            lam += 1
    else:
        phi, lam = phi_ref(f), lambda_ref(f)
    same(call(F.euler_phi, n), phi, "euler_phi", n)
    same(call(F.moebius_mu, n), mu_ref(f), "moebius_mu", n)
    for k in range(5):
        same(call(F.divisor_sigma, n, k), sum(d**k for d in D), "divisor_sigma", (n, k))
    same(call(F.divisor_sigma, n), sum(D), "divisor_sigma", n)
    same(call(F.sum_of_divisors, n), sum(D), "sum_of_divisors", n)
    same(call(F.divisor_tau, n), len(D), "divisor_tau", n)
    same(call(F.number_of_divisors, n), len(D), "number_of_divisors", n)
    same(call(F.carmichael_lambda, n), lam, "carmichael_lambda", n)
    return len(f) > 1


@law("C11", st.tuples(factored(10**30, max_primes=7), st.integers(0, 6), st.booleans()), quick=2500)
def values_constructed(case):
    """known factorizations up to 10^30 given as lists, and as integers below 10^12; non-trivial: two primes"""
    f, k, as_int = case
    n = product(f)
    arg = n if as_int and n < 10**12 else [tuple(x) for x in f]
    before = repr(arg)
    same(call(F.euler_phi, arg), phi_ref(f), "euler_phi", arg)
    same(call(F.moebius_mu, arg), mu_ref(f), "moebius_mu", arg)
    same(call(F.divisor_sigma, arg, k), sigma_ref(f, k), "divisor_sigma", (arg, k))
    same(call(F.divisor_tau, arg), tau_ref(f), "divisor_tau", arg)
    same(call(F.carmichael_lambda, arg), lambda_ref(f), "carmichael_lambda", arg)
    same(repr(arg), before, "the argument was changed")
    return len(f) > 1


@law("C11", st.tuples(st.integers(0, 70), st.lists(st.tuples(st.sampled_from(SMALL_PRIMES[1:30]), st.integers(1, 5)), max_size=3), st.integers(1, 10**6)), quick=1200)
def lambda_is_universal_exponent(case):
    """carmichael_lambda of 2^a * m: a^lambda = 1 for units, and it divides phi; non-trivial: a >= 3"""
    a, ps, x = case
    d = {}
    for (p, e) in ps:
        d[p] = e
    if a:
        d[2] = a
    f = sorted(d.items())
    n = product(f)
    lam = call(F.carmichael_lambda, f)
    same(lam, lambda_ref(f), "carmichael_lambda", f)
    if math.gcd(x, n) == 1:
        same(pow(x, lam, n), 1 % n, "x**lambda mod n", (x, n))
    return a >= 3


@law("C11", st.tuples(factored(10**8, max_primes=3), factored(10**8, max_primes=3), st.integers(0, 3)), quick=800)
def multiplicativity(case):
    """metamorphic: f(mn) = f(m) f(n) for coprime m, n; non-trivial: m, n > 1"""
    f, g, k = case
    if {p for p, e in f} & {p for p, e in g}:
        raise Reject()
    m, n = product(f), product(g)
    for (fn, args) in ((F.euler_phi, ()), (F.moebius_mu, ()), (F.divisor_sigma, (k,)), (F.divisor_tau, ())):
        same(call(fn, m*n, *args), call(fn, m, *args)*call(fn, n, *args), fn.__name__, "is not multiplicative at", (m, n))
    return m > 1 and n > 1


@law("C11", st.one_of(st.integers(0, 300), ints(0, 6000)), quick=500)
def factorials(n):
    """factorial(n) for n up to 6000; non-trivial: n >= 4"""
    same(call(F.factorial, n), math.factorial(n), "factorial", n)
    return n >= 4


@functools.lru_cache(None)
def _primorials():
    out = [1]
    for p in SMALL_PRIMES:
        out.append(out[-1]*p)
    return out


@law("C11", Each(lambda tier: iter(range(1, 300))))
def primorials(n):
    """primorial(n) for n < 300; all non-trivial"""
    same(call(F.primorial, n), _primorials()[n], "primorial", n)
    return True


@law("C11", st.tuples(st.integers(0, 7), st.integers(-10**6, 0), st.integers(1, 100)), quick=200)
def invalid_arguments(case):
    """non-positive n, negative k and non-numbers are a ValueError; all non-trivial"""
    i, n, m = case
    fs = [F.euler_phi, F.moebius_mu, F.divisor_sigma, F.divisor_tau, F.carmichael_lambda]
    if i < 5:
        must_raise(ValueError, fs[i], n)
        must_raise(ValueError, fs[i], "cat")
        must_raise(ValueError, fs[i], [(-1, 1), (2, 1)])
    elif i == 5:
        must_raise(ValueError, F.divisor_sigma, m, n - 1)
    elif i == 6:
        must_raise(ValueError, F.factorial, n - 1)
    else:
        must_raise(ValueError, F.primorial, n)
    return True


@law("C11", Each(lambda tier: iter([[], [(1, 1)]])))
def factorization_of_one(f):
    """both spellings of the factorization of 1 used by the package; all non-trivial"""
    for fn in (F.euler_phi, F.moebius_mu, F.divisor_sigma, F.divisor_tau, F.carmichael_lambda):
        same(call(fn, list(f)), 1, fn.__name__, f)
    return True


# ------------------------------------------------------------------ C12

def _lists(n, k):
    phi, mu = _tables()
    same(call(V.euler_phi_list, n), phi[:n + 1].tolist(), "euler_phi_list", n)
    same(call(V.totient_list, n), phi[:n + 1].tolist(), "totient_list", n)
    same(call(V.moebius_list, n), mu[:n + 1].tolist(), "moebius_list", n)
    same(call(V.tau_list, n), _sigma_table(_up(n), 0)[:n + 1], "tau_list", n)
    same(call(V.sigma_list, n), _sigma_table(_up(n), 1)[:n + 1], "sigma_list", n)
    same(call(V.sigma_list, n, k), _sigma_table(_up(n), k)[:n + 1], "sigma_list", (n, k))


def _up(n):
    return 1200 if n <= 1200 else 40000


@law("C12", Each(lambda tier: ((n, n % 5) for n in range(1, 1200))), shards=2)
def lists_small(case):
    """every n < 1200: the five list functions, exponent n mod 5; non-trivial: n >= 4"""
    _lists(*case)
    return case[0] >= 4


@law("C12", st.tuples(st.one_of(ints(1, 40000), st.integers(9990, 10010), st.integers(30, 199).map(lambda r: r*r), st.integers(30, 199).map(lambda r: r*r - 1),
                                st.sampled_from(SMALL_PRIMES[9:44]).map(lambda p: p*p)), st.integers(0, 4)), quick=60, shards=3)
def lists_medium(case):
    """n up to 40000, at squares and around the change of algorithm at 10^4; non-trivial: n > 1000"""
    _lists(*case)
    return case[0] > 1000


@law("C12", Each(lambda tier: ((a, b) for b in range(1, 90 if tier == "quick" else 300) for a in range(0, b + 1))))
def moebius_range_small(case):
    """every interval 0 <= a <= b < 90; non-trivial: at least 5 numbers"""
    a, b = case
    phi, mu = _tables()
    lo = max(a, 1)
    same([tuple(x) for x in call_list(V.moebius_range, a, b, limit=b + 5)], [(n, int(mu[n])) for n in range(lo, b)], "moebius_range", case)
    return b - a >= 5


@law("C12", st.tuples(st.one_of(ints(1, TOP - 5001), st.integers(4, 1000).map(lambda r: r*r)), st.one_of(st.integers(1, 60), st.integers(1, 5000))), quick=300)
def moebius_range_medium(case):
    """intervals below 1.2*10^6, shorter and longer than a block; non-trivial: longer than sqrt(b)"""
    a, d = case
    phi, mu = _tables()
    same([tuple(x) for x in call_list(V.moebius_range, a, a + d, limit=d + 5)], [(n, int(mu[n])) for n in range(a, a + d)], "moebius_range", (a, a + d))
    return d > math.isqrt(a + d)


@law("C12", st.tuples(st.integers(10**6, 10**10), st.integers(1, 40)), quick=40, cpu=60)
def moebius_range_high(case):
    """short intervals up to 10^10 against factoring; all non-trivial"""
    a, d = case
    same([tuple(x) for x in call_list(V.moebius_range, a, a + d, limit=d + 5)], [(n, mu_ref(fac_ref(n))) for n in range(a, a + d)], "moebius_range", (a, a + d))
    return True


@law("C12", st.integers(-2, 2000), quick=100)
def moebius_range_one_argument(b):
    """moebius_range(b) is [1, b); non-trivial: b > 10"""
    phi, mu = _tables()
    same([tuple(x) for x in call_list(V.moebius_range, b, limit=5000)], [(n, int(mu[n])) for n in range(1, max(b, 1))], "moebius_range", b)
    return b > 10


@law("C12", st.tuples(st.integers(0, 3), st.integers(-1000, 0)), quick=60)
def invalid_lists(case):
    """n <= 0 or a negative exponent is a ValueError; all non-trivial"""
    i, n = case
    must_raise(ValueError, [V.euler_phi_list, V.moebius_list, V.sigma_list, V.tau_list][i], n)
    must_raise(ValueError, V.sigma_list, 10, n - 1)
    return True


# ------------------------------------------------------------------ C13

def _sums(n):
    p, m, w = _prefix()
    same(call(M.euler_phi_sum, n), int(p[n]), "euler_phi_sum", n)
    same(call(M.moebius_sum, n), int(m[n]), "moebius_sum", n)
    same(call(M.euler_phi_weighted_sum, n), int(w[n]), "euler_phi_weighted_sum", n)
    same(call(M.sigma_sum, n), sigma_sum_ref(n), "sigma_sum", n)


def sigma_sum_ref(n):
    total = 0
    d = 1
    while d <= n:
        q = n//d
        e = n//q
        total += q*(d + e)*(e - d + 1)//2
        d = e + 1
    return total


@law("C13", Each(lambda tier: iter(range(1, 2500 if tier == "quick" else 40000))), shards=2)
def sums_small(n):
    """every n < 2500: the four summatory functions against prefix sums; non-trivial: n >= 4"""
    _sums(n)
    if n < 400:
        same(call(M.sigma_sum, n), sum(_sigma_table(1200, 1)[:n + 1]), "sigma_sum", n)
        same(call(M.totient_sum, n), int(_prefix()[0][n]), "totient_sum", n)
        same(call(M.mertens, n), int(_prefix()[1][n]), "mertens", n)
    return n >= 4


@law("C13", st.one_of(ints(1, TOP), st.tuples(st.integers(2, 1095), st.integers(-1, 1)).map(lambda t: t[0]**2 + t[1]),
                      st.tuples(st.integers(2, 1094), st.integers(-1, 1)).map(lambda t: t[0]*(t[0] + 1) + t[1]),
                      st.tuples(st.integers(2, 106), st.integers(-1, 1)).map(lambda t: t[0]**3 + t[1])), quick=150, shards=3)
def sums_medium(n):
    """n up to 1.2*10^6, at squares, oblongs and cubes +-1; non-trivial: n > 10^4"""
    _sums(n)
    return n > 10**4


@law("C13", st.one_of(st.integers(10**6, 10**11), st.tuples(st.integers(10**4, 3*10**5), st.integers(-2, 2)).map(lambda t: t[0]**2 + t[1])), quick=60, cpu=60)
def sigma_sum_large(n):
    """sigma_sum up to 10^11; all non-trivial"""
    same(call(M.sigma_sum, n), sigma_sum_ref(n), "sigma_sum", n)
    return True


@law("C13", st.integers(2*10**6, 3*10**7), quick=3, thorough=40, shards=4, cpu=120)
def sums_identities_large(n):
    """n up to 3*10^7: S(n) = sum mu(d) d [n/d]([n/d]+1)/2-type identities through a Moebius sieve; all non-trivial"""
    # sum_{k<=n} phi(k) = (1 + sum_{d<=n} mu(d) floor(n/d)^2) / 2, with the Mertens function from a fresh sieve
    mu = _mu_sieve(n)
    q = n//np.arange(1, n + 1, dtype=np.int64)
    s = int((mu[1:]*q*q).sum())
    same(call(M.moebius_sum, n), int(mu.sum()), "moebius_sum", n)
    same(call(M.euler_phi_sum, n), (1 + s)//2, "euler_phi_sum", n)
    # sum k phi(k) = sum_d mu(d) d * T(floor(n/d)),  T(m) = sum_{j<=m} j*j
    a = np.arange(1, n + 1, dtype=np.int64)
    cum = np.concatenate([[0], np.cumsum(mu[1:]*a)])
    total = 0
    d = 1
    while d <= n:
        v = n//d
        e = n//v
        total += (int(cum[e]) - int(cum[d - 1]))*(v*(v + 1)*(2*v + 1)//6)
        d = e + 1
    same(call(M.euler_phi_weighted_sum, n), total, "euler_phi_weighted_sum", n)
    return True


def _mu_sieve(n):
    mu = np.ones(n + 1, dtype=np.int64)
    mu[0] = 0
    rest = np.ones(n + 1, dtype=np.int64)
    for p in range(2, math.isqrt(n) + 1):
        if p < len(SPF) and SPF[p] != p:
            continue
        mu[p::p] *= -1
        mu[p*p::p*p] = 0
        rest[p::p] *= p
    k = np.arange(n + 1, dtype=np.int64)
    mu[(rest < k)] *= -1
    return mu


@law("C13", st.integers(-1000, 0), quick=30)
def invalid_sums(n):
    """n <= 0 is a ValueError; all non-trivial"""
    for f in (M.euler_phi_sum, M.moebius_sum, M.euler_phi_weighted_sum, M.sigma_sum):
        must_raise(ValueError, f, n)
    return True


# ------------------------------------------------------------------ C14

@functools.lru_cache(None)
def _preimages():
    phi, mu = _tables()
    out = {}
    for k in range(1, 130001):
        out.setdefault(int(phi[k]), []).append(k)
    return out


@law("C14", Each(lambda tier: iter(range(1, 4000 if tier == "quick" else 15000))), shards=2)
def inverse_small(n):
    """every n < 4000 against the table of phi(k), k <= 130000 (k/phi(k) < 8 there); non-trivial: has a preimage and n > 2"""
    want = _preimages().get(n, [])
    same(call(I.euler_phi_inverse, n), want, "euler_phi_inverse", n)
    same(call(I.inverse_phi, n), want, "inverse_phi", n)
    if n > 1:
        same(call(I.euler_phi_inverse, small_factor(n)), want, "euler_phi_inverse of a factorization", n)
    return n > 2 and bool(want)


@law("C14", st.one_of(st.integers(1, 15000).map(lambda x: x*2).filter(lambda n: n <= 15000), st.sampled_from([2**i*3**j*5**k for i in range(14) for j in range(6) for k in range(3) if 2**i*3**j*5**k <= 15000])), quick=300)
def inverse_smooth(n):
    """even and smooth n <= 15000; non-trivial: at least 6 preimages"""
    want = _preimages().get(n, [])
    same(call(I.euler_phi_inverse, n), want, "euler_phi_inverse", n)
    same(call(I.inverse_phi, n), want, "inverse_phi", n)
    return len(want) >= 6


@law("C14", factored(10**9, max_primes=5, primes=st.one_of(st.sampled_from(SMALL_PRIMES[:6]), st.sampled_from(SMALL_PRIMES[:100]), st.sampled_from([257, 65537, 163, 487, 1459]))), quick=500, shards=2, cpu=60)
def inverse_contains_origin(f):
    """m with known factorization: phi(m) has m among its preimages, every listed k has phi(k) = phi(m), both functions agree; non-trivial: m > 1000"""
    m = product(f)
    n = phi_ref(f)
    if len(divisors_ref(fac_ref(n))) > 400:
        raise Reject()
    got = call(I.euler_phi_inverse, n)
    ensure(m in got, "euler_phi_inverse", n, "misses", m)
    same(got, sorted(set(got)), "euler_phi_inverse is not sorted and distinct", n)
    for k in got:
        same(phi_ref(fac_ref(k)), n, "phi of the listed preimage", k)
    if n < 10**6:
        same(call(I.inverse_phi, n), got, "inverse_phi and euler_phi_inverse differ at", n)
    same(call(I.euler_phi_inverse, fac_ref(n)), got, "euler_phi_inverse of a factorization", n)
    return m > 1000


@law("C14", st.one_of(st.integers(-10**6, 0)), quick=50)
def inverse_invalid(n):
    """n <= 0 and non-numbers are a ValueError; all non-trivial"""
    must_raise(ValueError, I.euler_phi_inverse, n)
    must_raise(ValueError, I.euler_phi_inverse, "cat")
    return True
