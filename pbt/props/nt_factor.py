"""C08-C10: factorization, factoring algorithms, divisors."""
import functools
import math
import random

from hypothesis import strategies as st
from sympy import factorint as sym_factorint, isprime as sym_isprime, nextprime as sym_nextprime, prevprime as sym_prevprime

from pbt.core import Each, Reject, call, call_list, ensure, is_int, law, must_raise, same
from pbt.gens import SMALL_PRIMES, big_primes, factored, ints, product
from pbt.pseudoprimes import STRONG

from rosemary.number_theory.factorization import algorithms as A
from rosemary.number_theory.factorization import factorization as F


def spf_table(n):
    t = list(range(n + 1))
    for p in range(2, math.isqrt(n) + 1):
        if t[p] == p:
            for m in range(p*p, n + 1, p):
                if t[m] == m:
                    t[m] = p
    return t


SPF = spf_table(120000)


def small_factor(n):
    out = []
    while n > 1:
        p = SPF[n]
        e = 0
        while n % p == 0:
            n //= p
            e += 1
        out.append((p, e))
    return out


def fac_ref(n):
    if abs(n) < len(SPF):
        f = small_factor(abs(n))
    else:
        f = sorted(sym_factorint(abs(n)).items())
    return ([(-1, 1)] if n < 0 else []) + f


def pairs_of(f):
    return [(int(p), int(e)) for (p, e) in f]


def check_fac(got, want, *what):
    ensure(isinstance(got, list), *what, "is not a list:", got)
    same([tuple(x) for x in got], want, *what)


# ------------------------------------------------------------------ C08

@law("C08", Each(lambda tier: (n for m in range(1, 4000 if tier == "quick" else 60000) for n in (m, -m))))
def factor_small(n):
    """every 0 < |n| < 4000, with and without power detection; non-trivial: not a prime power"""
    want = fac_ref(n)
    check_fac(call(F.factor, n), want, "factor", n)
    check_fac(call(F.factor, n, skip_power_detection=False), want, "factor(n, skip_power_detection=False)", n)
    same(call(F.factor_back, want), n, "factor_back", want)
    return len(want) > 1


@law("C08", st.tuples(factored(10**24, max_primes=6, primes=st.one_of(st.sampled_from(SMALL_PRIMES[:8]), st.sampled_from(SMALL_PRIMES),
     st.sampled_from([p for p in big_primes() if p < 1 << 40]))), st.sampled_from([1, 1, 1, -1]), st.sampled_from([0, 0, 1, 2])), quick=350, shards=3)
def factor_constructed(case):
    """products built from known primes up to 40 bits, at most two above 2^30; non-trivial: two or more primes"""
    f, sign, opt = case
    if sum(1 for (p, e) in f if p > 1 << 30) > 2:
        raise Reject()
    n = sign*product(f)
    want = ([(-1, 1)] if sign < 0 else []) + f
    kw = [{}, {"skip_trial_division": True}, {"skip_power_detection": False}][opt]
    check_fac(call(F.factor, n, **kw), want, "factor", n, kw)
    same(call(F.factor_back, want), n, "factor_back", want)
    return len(f) >= 2


_beyond = st.one_of(st.sampled_from([1000003, 1000033, 1000037, 1000039, 1299709, 2750159, 7368787, 15485863, 999983, 1000000007, 998244353]),
                    st.integers(10**6, 3*10**7).map(sym_nextprime))


@law("C08", st.tuples(st.lists(st.tuples(_beyond, st.integers(1, 3)), min_size=1, max_size=3), st.integers(1, 60), st.integers(0, 3)), quick=250, shards=2, cpu=90)
def factor_beyond_table(case):
    """prime powers and products of primes above 10^6, times a small number, with every option; non-trivial: all"""
    fs, m, opt = case
    d = {}
    for (p, e) in fs:
        d[p] = d.get(p, 0) + e
    for (p, e) in small_factor(m):
        d[p] = d.get(p, 0) + e
    want = sorted(d.items())
    n = product(want)
    kw = [{}, {"skip_power_detection": False}, {"use_cfrac": True}, {"skip_trial_division": True}][opt]
    if opt == 2 and n > 10**27:
        kw = {}
    check_fac(call(F.factor, n, **kw), want, "factor", n, kw)
    return True


@law("C08", st.tuples(st.sampled_from([10**6, 1050000, 1299000, 4000000]), st.integers(4, 14), st.integers(0, 10**9), st.integers(0, 1)), quick=300, thorough=4000, shards=2, cpu=60)
def factor_many_large_primes(case):
    """four or more distinct primes just above the table, where a divisor found may be composite itself; all non-trivial"""
    import random
    start, k, seed, opt = case
    ps = primes_from(start)
    want = [(p, 1) for p in sorted(random.Random(seed).sample(ps, k))]
    n = product(want)
    kw = [{}, {"skip_power_detection": False}][opt]
    check_fac(call(F.factor, n, **kw), want, "factor", n, kw)
    return True


@functools.lru_cache(None)
def primes_from(start):
    out = []
    while len(out) < 150:
        start = sym_nextprime(start)
        out.append(start)
    return out


@law("C08", st.tuples(st.sampled_from([n for (k, n) in STRONG if n < 10**20]), st.sampled_from([1, 1, 2, 30, 1000003]), st.integers(0, 2)), quick=120, cpu=90)
def factor_pseudoprimes(case):
    """strong pseudoprimes to the first k prime bases, without small factors, and multiples of them; all non-trivial"""
    n, m, opt = case
    want = sorted(sym_factorint(n*m).items())
    kw = [{}, {"skip_power_detection": False}, {"skip_trial_division": True}][opt]
    check_fac(call(F.factor, n*m, **kw), want, "factor", n*m, kw)
    return True


@law("C08", st.one_of(ints(1, 1 << 62, sub="number_theory"), st.integers(1 << 40, 1 << 62)), quick=500, shards=2, cpu=60)
def factor_random(n):
    """integers up to 2^62: sorted, primes (sympy), positive exponents, product n; non-trivial: n > 10^6"""
    f = call(F.factor, n)
    ps = [p for (p, e) in f]
    same(ps, sorted(set(ps)), "primes of factor are not sorted and distinct", n, f)
    for (p, e) in f:
        ensure(is_int(p) and is_int(e) and e >= 1 and sym_isprime(p), "factor", n, "has the entry", (p, e))
    same(product(f), n, "product of factor", n, f)
    same(call(F.factor_back, f), n, "factor_back(factor(n))", n)
    return n > 10**6


@law("C08", st.tuples(st.integers(2, 4000), st.integers(2, 40), st.sampled_from([1, -1])), quick=600)
def factor_perfect_powers(case):
    """b^k, k up to 40, with power detection; non-trivial: b not prime"""
    b, k, s = case
    want = ([(-1, 1)] if s < 0 else []) + [(p, e*k) for (p, e) in small_factor(b)]
    check_fac(call(F.factor, s*b**k, skip_power_detection=False), want, "factor(b**k, skip_power_detection=False)", case)
    check_fac(call(F.factor, s*b**k), want, "factor(b**k)", case)
    return len(want) > 1


@law("C08", st.lists(st.tuples(st.one_of(st.sampled_from([-1, 2, 3, 5]), st.integers(-50, 10**6)), st.integers(0, 6)), max_size=8), quick=1500)
def factor_back_any_pairs(case):
    """any list of (base, exponent) pairs; non-trivial: at least two pairs"""
    want = 1
    for (p, e) in case:
        want *= p**e
    same(call(F.factor_back, list(case)), want, "factor_back", case)
    return len(case) >= 2


@law("C08", Each(lambda tier: iter(["zero", "tuple", "int", "none"])))
def factor_rejects(kind):
    """zero has no factorization and factor_back takes a list only; all non-trivial"""
    if kind == "zero":
        must_raise(ValueError, F.factor, 0)
    else:
        must_raise(ValueError, F.factor_back, {"tuple": ((2, 1),), "int": 6, "none": None}[kind])
    return True


# ------------------------------------------------------------------ C09

def least_prime(n):
    return SPF[n] if n < len(SPF) else min(sym_factorint(n))


@law("C09", Each(lambda tier: iter(range(2, 6000 if tier == "quick" else 60000))), shards=2)
def deterministic_small(n):
    """every n in [2, 6000): trial_division, fermat, lehman prove primality or give a factor; non-trivial: composite"""
    p = SPF[n]
    same(call(A.trial_division, n), p, "trial_division", n)
    for f in (A.lehman, A.fermat):
        if f is A.fermat and n > 3000:
            continue
        _finds(f, n, p == n)
    return p != n


def _finds(f, n, prime):
    d = call(f, n)
    ensure(is_int(d) and d > 0 and n % d == 0, f.__name__, n, "returned the non-divisor", d)
    if prime:
        same(d, n, f.__name__, "of a prime", n)
    else:
        ensure(1 < d < n, f.__name__, "of the composite", n, "returned", d)


@st.composite
def _semiprimes(draw):
    kind = draw(st.sampled_from(["balanced", "balanced", "cube", "any", "square", "ratio", "cube3"]))
    if kind == "balanced":
        p = sym_nextprime(draw(st.integers(50, 400000)))
        q = sym_nextprime(draw(st.integers(p, 3*p)))
    elif kind == "cube":        # p just above or below the cube root of n
        p = sym_nextprime(draw(st.integers(10, 1500)))
        q = sym_nextprime(max(2, p*p + draw(st.integers(-3*p, 3*p))))
    elif kind == "square":
        p = q = sym_nextprime(draw(st.integers(2, 300000)))
    elif kind == "ratio":
        u, v = draw(st.integers(1, 12)), draw(st.integers(1, 12))
        b = draw(st.integers(20, 20000))
        p, q = sym_nextprime(b*u), sym_nextprime(b*v)
    elif kind == "cube3":
        p = sym_nextprime(draw(st.integers(2, 2000)))
        return [p, p, p] if draw(st.booleans()) else [p, p, sym_nextprime(p)]
    else:
        p = draw(st.sampled_from(SMALL_PRIMES))
        q = sym_nextprime(draw(st.integers(2, 10**7)))
    return sorted([p, q])


@law("C09", _semiprimes(), quick=500, shards=2, cpu=60)
def lehman_and_trial_division(ps):
    """semiprimes (balanced, near p*p^2, squares, ratios u/v) and cubes: lehman gives a prime factor side, trial_division the least prime; all non-trivial"""
    n = math.prod(ps)
    if n < 1 << 48:
        _finds(A.lehman, n, False)
    if ps[0] < 1 << 21:
        same(call(A.trial_division, n), ps[0], "trial_division", n)
    return True


@law("C09", st.tuples(st.one_of(st.integers(10**6, 10**6 + 300), st.integers(10**6, 13*10**5)), st.integers(0, 10**9)), quick=200, cpu=60)
def trial_division_past_table(case):
    """n = p*q with both primes above the table of primes: the least prime, or n when the bound is below it; all non-trivial"""
    a, b = case
    p = sym_nextprime(a)
    q = sym_nextprime(p + b)
    same(call(A.trial_division, p*q), p, "trial_division", p*q)
    same(call(A.trial_division, p*p), p, "trial_division", p*p)
    same(call(A.trial_division, p*q, p), p, "trial_division", p*q, p)
    got = call(A.trial_division, p*q, p - 1)
    same(got, p*q, "trial_division", p*q, "with the bound", p - 1)
    return True


@law("C09", st.one_of(st.integers(10**3, 10**9), st.integers(10**9, 1 << 40)).map(lambda x: sym_nextprime(x)), quick=60, cpu=60)
def primes_proved(p):
    """primes up to 2^40: trial_division and lehman return the prime itself, and fermat for small ones; all non-trivial"""
    same(call(A.lehman, p), p, "lehman of a prime", p)
    if p < 1 << 34:
        same(call(A.trial_division, p), p, "trial_division of a prime", p)
    if p < 10**6:
        same(call(A.fermat, p), p, "fermat of a prime", p)
    return True


@law("C09", st.tuples(st.one_of(st.integers(2, 10**6), st.integers(2, 10**12)), st.one_of(st.integers(2, 100), st.integers(2, 2*10**6))), quick=500)
def trial_division_bounded(case):
    """with a bound B: the least prime if it is <= B, otherwise n (or a true divisor above B); non-trivial: composite n"""
    n, B = case
    p = least_prime(n)
    d = call(A.trial_division, n, B)
    if p <= B:
        same(d, p, "trial_division(n, B)", case)
    else:
        same(d, n, "trial_division(n, B) with no prime divisor <= B", case)
    return p != n


@law("C09", st.tuples(st.integers(3, 10**6), st.integers(0, 200)).map(lambda t: (sym_nextprime(t[0]), t[1])), quick=400, cpu=60)
def fermat_close_factors(case):
    """odd n = p*q with p and q close (Fermat's good case), up to 10^12; all non-trivial"""
    p, k = case
    q = p
    for _ in range(k % 12):
        q = sym_nextprime(q)
    m = p*q if k < 150 or p > 2000 else p*q*3
    _finds(A.fermat, m, False)
    return True


_comp = st.one_of(
    st.lists(st.one_of(st.sampled_from(SMALL_PRIMES), st.sampled_from([p for p in big_primes() if p < 1 << 22])), min_size=2, max_size=4).map(math.prod),
    st.tuples(st.sampled_from([p for p in big_primes() if p < 1 << 24]), st.sampled_from(big_primes())).map(math.prod),
    st.sampled_from([p for p in big_primes() if p < 1 << 20]).map(lambda p: p*p),
    st.integers(4, 4000).filter(lambda n: SPF[n] != n))


@law("C09", _comp, quick=700, shards=2, cpu=60)
def rho_divisors(n):
    """composite n >= 4: pollard_rho and pollard_rho_brent return a divisor greater than 1; non-trivial: n > 10^4"""
    for f in (A.pollard_rho, A.pollard_rho_brent):
        d = call(f, n)
        ensure(is_int(d) and 1 < d <= n and n % d == 0, f.__name__, n, "returned", d)
    d = call(A.pollard_rho, n, 50)
    ensure(is_int(d) and 1 < d <= n and n % d == 0, "pollard_rho(n, 50)", n, "returned", d)
    return n > 10**4


@law("C09", st.tuples(st.sampled_from([p for p in big_primes() if 1 << 12 < p < 1 << 24]), st.sampled_from([p for p in big_primes() if 1 << 26 < p < 1 << 60])),
     quick=150, cpu=60)
def rho_succeeds(case):
    """n = p*q with p << q: some of 12 runs of each rho variant gives a proper factor; all non-trivial"""
    p, q = case
    n = p*q
    for f in (A.pollard_rho, A.pollard_rho_brent):
        ensure(any(call(f, n) in (p, q) for _ in range(12)), f.__name__, "found no proper factor of", case, "in 12 runs")
    return True


def _powersmooth(m, B):
    for (p, e) in fac_ref(m):
        if p**e > B:
            return False
    return True


@law("C09", st.tuples(st.sampled_from(SMALL_PRIMES[6:] + [p for p in big_primes() if p < 1 << 50]),
                      st.sampled_from(SMALL_PRIMES[6:] + big_primes()), st.sampled_from([1, 2, 5, 10, 50, 100, 200, 1000, 3000])), quick=700)
def p_minus_1(case):
    """n = p*q: the result divides n, contains every p with p-1 limit-powersmooth unless a proper factor, and is never n when ord_q(13) is not; non-trivial: p-1 powersmooth, q-1 not"""
    p, q, limit = case
    n = p*q
    d = call(A.pollard_p_minus_1, n, limit)
    ensure(is_int(d) and d >= 1 and n % d == 0, "pollard_p_minus_1", (n, limit), "returned", d)
    L = 1
    for r in SMALL_PRIMES + [r for r in range(1999, limit + 1) if r % 2 and sym_isprime(r)]:
        if r > limit:
            break
        k = r
        while k*r <= limit:
            k *= r
        L *= k
    hit = [r for r in sorted({p, q}) if pow(13, L, r) == 1]
    if hit and d == 1:
        ensure(False, "pollard_p_minus_1", (n, limit), "missed the prime", hit[0])
    if p != q and len(hit) == 1:
        same(d, hit[0], "pollard_p_minus_1", (n, limit))
    if not hit:
        same(d, 1, "pollard_p_minus_1", (n, limit))
    return len(hit) == 1


@law("C09", st.one_of(_comp, st.tuples(st.integers(10**3, 10**8).map(sym_nextprime), st.integers(10**3, 10**9).map(sym_nextprime)).map(math.prod)).filter(lambda n: n < 1 << 58),
     quick=300, shards=2, cpu=60)
def cfrac_divisors(n):
    """composite n: cfrac returns a proper divisor, or None when no dependency helps; non-trivial: a divisor was found and n > 10^6"""
    d = call(A.cfrac, n)
    if d is None:
        return False
    ensure(is_int(d) and 1 < d < n and n % d == 0, "cfrac", n, "returned", d)
    return n > 10**6


@law("C09", st.tuples(st.integers(10**3, 10**7), st.integers(10**3, 10**8)), quick=8, shards=2, cpu=90)
def cfrac_succeeds(case):
    """24 consecutive semiprimes p*q: cfrac splits at least 4 of them; all non-trivial"""
    p, q = sym_nextprime(case[0]), sym_nextprime(case[1])
    ok = 0
    for _ in range(24):
        if call(A.cfrac, p*q) in (p, q):
            ok += 1
        p, q = sym_nextprime(p), sym_nextprime(q)
    ensure(ok >= 4, "cfrac found a factor for only", ok, "of the 24 semiprimes from", case)
    return True


@law("C09", st.tuples(st.booleans(), st.lists(st.sampled_from(SMALL_PRIMES[:40]), min_size=1, max_size=12, unique=True),
                      st.lists(st.integers(0, 6), min_size=12, max_size=12), st.sampled_from([1, 1, 1, 1, -1, -1, 211, 2003, 173])), quick=2500)
def smooth_factor_exponents(case):
    """n built over a factor base (possibly with a foreign factor or sign): exponents, or ValueError; non-trivial: at least two positive exponents"""
    neg, base, exps, extra = case
    base = sorted(base)
    n = extra
    for (p, e) in zip(base, exps):
        n *= p**e
    fb = ([-1] if neg else []) + base
    if abs(extra) > 1 and not (abs(extra) == 173 and 173 in base):
        must_raise(ValueError, A.smooth_factor, n, fb)
        return True
    if extra == -1 and not neg:
        must_raise(ValueError, A.smooth_factor, n, fb)
        return True
    want = [e + (1 if (p == abs(extra)) else 0) for (p, e) in zip(base, exps)]
    if neg:
        want = [1 if n < 0 else 0] + want
    same(list(call(A.smooth_factor, n, fb)), want, "smooth_factor", (n, fb))
    return sum(1 for e in want if e) >= 2


# ------------------------------------------------------------------ C10

def divisors_ref(f):
    out = [1]
    for (p, e) in f:
        out = [d*p**k for d in out for k in range(e + 1)]
    return sorted(out)


def _divisor_laws(n, f, use_n):
    """n > 0 with factorization f (passed as a factorization when use_n is 0, both when 2)."""
    D = divisors_ref(f)
    if use_n == 0:
        kw = {"factorization": list(f)}
    elif use_n == 1:
        kw = {"n": n}
    elif use_n == 2:
        kw = {"n": n, "factorization": list(f)}
    elif use_n == 3:
        kw = {"n": -n}
    else:
        kw = {"factorization": [(-1, 1)] + list(f)}
    before = repr(kw)
    same(call(F.divisors, **kw), D, "divisors", kw)
    same(sorted(call_list(F.xdivisors, **kw)), D, "sorted(xdivisors)", kw)
    same(call(F.prime_divisors, **kw), [p for (p, e) in f], "prime_divisors", kw)
    m = n
    same(call(F.unitary_divisors, **kw), [d for d in D if math.gcd(d, m//d) == 1], "unitary_divisors", kw)
    same([tuple(x) for x in call(F.divisor_pairs, **kw)], [(d, m//d) for d in D if d*d <= m], "divisor_pairs", kw)
    same(repr(kw), before, "the arguments were changed")
    return len(f) >= 2


@law("C10", Each(lambda tier: ((n, k) for n in range(1, 700 if tier == "quick" else 20000) for k in range(5))))
def divisors_small(case):
    """every n < 700, given as n, -n, a factorization (signed or not), or both; non-trivial: two primes"""
    n, k = case
    return _divisor_laws(n, small_factor(n), k)


@law("C10", st.tuples(factored(10**13, max_primes=7), st.integers(0, 4)), quick=1200, shards=2)
def divisors_constructed(case):
    """numbers with known factorization up to 10^13; non-trivial: two primes"""
    f, k = case
    if math.prod(e + 1 for (p, e) in f) > 6000:
        raise Reject()
    return _divisor_laws(product(f), f, k)


@law("C10", Each(lambda tier: iter(range(5))))
def divisors_need_an_argument(i):
    """calling without n and without a factorization is a TypeError; all non-trivial"""
    f = [F.divisors, F.divisor_pairs, F.prime_divisors, F.unitary_divisors, lambda: list(F.xdivisors())][i]
    must_raise(TypeError, f)
    return True


def _range_law(a, b, args):
    got = call_list(F.factored_range, *args, limit=b - a + 1)
    same([x[0] for x in got], list(range(a, b)), "numbers yielded by factored_range", args)
    for (n, f) in got:
        if n == 1:
            ensure(f in ([], [(1, 1)]), "factored_range yields", f, "for 1")
        else:
            same([tuple(x) for x in f], fac_ref(n), "factored_range", args, "at", n)


@law("C10", Each(lambda tier: ((a, b) for b in range(1, 70 if tier == "quick" else 300) for a in range(0, b + 1))))
def factored_range_small(case):
    """every interval 0 <= a <= b < 70; non-trivial: at least 5 numbers"""
    a, b = case
    lo = max(a, 1)
    _range_law(lo, max(b, lo), (a, b))
    return b - a >= 5


@law("C10", st.tuples(ints(1, 90000, sub="number_theory/factorization"), st.one_of(st.integers(1, 50), st.integers(1, 3000))), quick=250)
def factored_range_medium(case):
    """intervals below 10^5, shorter and longer than a block of the sieve; non-trivial: longer than sqrt(b)"""
    a, d = case
    _range_law(a, a + d, (a, a + d))
    return d > math.isqrt(a + d)


@law("C10", st.tuples(st.integers(10**6, 10**9), st.integers(1, 60)), quick=50)
def factored_range_high(case):
    """short intervals up to 10^9; all non-trivial"""
    a, d = case
    _range_law(a, a + d, (a, a + d))
    return True


@law("C10", st.integers(-2, 3000), quick=100)
def factored_range_one_argument(b):
    """factored_range(b) is [1, b); non-trivial: b > 10"""
    _range_law(1, max(b, 1), (b,))
    return b > 10
