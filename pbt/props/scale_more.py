"""More laws at scale: huge exponents, long series, large matrices, long periods, graphs and tours of hundreds of vertices."""
import itertools
import math
import random
from collections import Counter
from fractions import Fraction

from hypothesis import strategies as st

from pbt import gens
from pbt.core import Each, call, call_list, ensure, law, must_raise, same
from pbt.gens import mk_graph
from pbt.props.scale import deep_graph, levels_from, neighbors_of

from rosemary.algebra.matrices.matrices import Matrix
from rosemary.algebra.power_series import power_series as PS
from rosemary.combinatorics.enumeration import enumeration as EN
from rosemary.combinatorics.optimization import tsp as TS
from rosemary.graphs import graphs as GR
from rosemary.graphs.algorithms import cliques as CL
from rosemary.graphs.algorithms import coloring as CO
from rosemary.graphs.algorithms import degree_sequences as DS
from rosemary.graphs.algorithms import independent_sets as IS
from rosemary.number_theory import classification as C
from rosemary.number_theory import continued_fractions as CF
from rosemary.number_theory import misc as MI
from rosemary.number_theory import zn_arithmetic as Z
from rosemary.number_theory.arithmetic_functions import functions as F
from rosemary.number_theory.diophantine_equations import pell as P
from rosemary.number_theory.factorization import factorization as FA
from rosemary.number_theory.primes import primality as PR
from rosemary.utilities import cached_function

INF = float("inf")


# ---------------------------------------------------------------------------
# Factored numbers of thousands of bits
# ---------------------------------------------------------------------------

@st.composite
def huge_factorizations(draw):
    """one to four primes below 10^6 with exponents up to thousands, or the factorization of n!"""
    kind = draw(st.sampled_from(["few", "few", "few", "one", "factorial", "many"]))
    r = random.Random(draw(st.integers(0, 10**9)))
    if kind == "factorial":
        n = draw(st.integers(30, 700))
        out = []
        for p in gens.SMALL_PRIMES:
            e, q = 0, p
            while q <= n:
                e += n//q
                q *= p
            if e:
                out.append((p, e))
        return out
    if kind == "many":
        return [(p, r.choice([1, 1, 1, 2, 5])) for p in sorted(r.sample(gens.SMALL_PRIMES, r.randint(20, 120)))]
    pool = gens.SMALL_PRIMES[:6]*3 + gens.SMALL_PRIMES[6:60] + [7919, 65537, 104729, 999983]
    k = 1 if kind == "one" else r.randint(2, 4)
    ps = sorted({r.choice(pool) for _ in range(k)})
    return [(p, r.choice([1, 2, 63, 64, 65, 200, 700, 1500, 3000])//(1 if p < 100 else 10) + 1) for p in ps]


@law("C08", huge_factorizations(), quick=40, cpu=60)
def factor_thousands_of_bits(fac):
    """numbers of thousands of bits with small prime factors; non-trivial: an exponent above 60 or 20 primes"""
    n = math.prod(p**e for (p, e) in fac)
    same(call(FA.factor, n), fac, "factor of the product of", fac)
    same(call(FA.factor, -n), [(-1, 1)] + fac, "factor of minus the product of", fac)
    same(call(FA.factor_back, list(fac)), n, "factor_back of", fac)
    g = math.gcd(*[e for (p, e) in fac])
    if n.bit_length() <= 1500:
        same(call(FA.factor, n, skip_power_detection=False), fac, "factor with power detection of the product of", fac, "gcd of the exponents", g)
    return max(e for (p, e) in fac) > 60 or len(fac) >= 20


@law("C10", huge_factorizations(), quick=40, cpu=60)
def divisors_of_huge_powers(fac):
    """at most two primes with large exponents: hundreds of divisors; non-trivial: at least 60 divisors"""
    fac = fac[:2] if fac[0][1] < 80 or len(fac) == 1 else [fac[0], (fac[1][0], min(3, fac[1][1]))]
    if len(fac) == 2 and (fac[0][1] + 1)*(fac[1][1] + 1) > 8000:
        fac = fac[:1]
    n = math.prod(p**e for (p, e) in fac)
    want = sorted(math.prod(t) for t in itertools.product(*[[p**i for i in range(e + 1)] for (p, e) in fac]))
    same(call(FA.divisors, n), want, "divisors of the product of", fac)
    same(call(FA.divisors, factorization=list(fac)), want, "divisors of", fac)
    same(sorted(call_list(FA.xdivisors, n, limit=len(want) + 1)), want, "xdivisors of the product of", fac)
    same(sorted(call_list(FA.xdivisors, factorization=list(fac), limit=len(want) + 1)), want, "xdivisors of", fac)
    same(call(FA.prime_divisors, n), [p for (p, e) in fac], "prime_divisors of the product of", fac)
    unitary = sorted(math.prod(t) for t in itertools.product(*[[1, p**e] for (p, e) in fac]))
    same(sorted(call(FA.unitary_divisors, n)), unitary, "unitary_divisors of the product of", fac)
    pairs = call_list(FA.divisor_pairs, n, limit=len(want) + 1)
    same(sorted(d for pair in pairs for d in set(pair)), want, "members of the divisor pairs of the product of", fac)
    ensure(all(a*b == n for (a, b) in pairs), "divisor_pairs of the product of", fac)
    return len(want) >= 60


@law("C10", Each(lambda tier: range(8, 13 if tier == "quick" else 15), whole=False), cpu=60)
def divisors_of_primorials(k):
    """products of 8 to 12 primes: thousands of divisors; non-trivial: always"""
    ps = gens.SMALL_PRIMES[3:3 + k]
    n = math.prod(ps)
    want = [1]
    for p in ps:
        want += [p*d for d in want]
    want.sort()
    same(call(FA.divisors, n), want, "divisors of", n)
    same(sorted(call(FA.unitary_divisors, n)), want, "unitary_divisors of", n)
    same(sorted(call_list(FA.xdivisors, n, limit=len(want) + 1)), want, "xdivisors of", n)
    pairs = call_list(FA.divisor_pairs, n, limit=len(want) + 1)
    same(sorted(d for pair in pairs for d in pair), want, "members of the divisor pairs of", n)
    return True


@law("C11", huge_factorizations(), quick=40, cpu=60)
def functions_of_huge_numbers(fac):
    """values at numbers of thousands of bits, given as numbers and as factorizations; non-trivial: an exponent above 60 or 20 primes"""
    n = math.prod(p**e for (p, e) in fac)
    values = [
        (F.euler_phi, (), math.prod((p - 1)*p**(e - 1) for (p, e) in fac)),
        (F.moebius_mu, (), 0 if any(e > 1 for (p, e) in fac) else (-1)**len(fac)),
        (F.divisor_tau, (), math.prod(e + 1 for (p, e) in fac)),
        (F.carmichael_lambda, (), math.lcm(*[(2**(e - 2) if e > 2 else 2**(e - 1)) if p == 2 else (p - 1)*p**(e - 1) for (p, e) in fac])),
    ] + [(F.divisor_sigma, (k,), math.prod(sum(p**(k*i) for i in range(e + 1)) for (p, e) in fac)) for k in ((0, 1, 2) if n.bit_length() < 5000 else (0, 1))]
    for (fn, more, want) in values:
        same(call(fn, n, *more), want, fn.__name__, more, "of the product of", fac)
        same(call(fn, list(fac), *more), want, fn.__name__, more, "of the factorization", fac)
    same(call(C.is_squarefree, n), all(e == 1 for (p, e) in fac), "is_squarefree of the product of", fac)
    return max(e for (p, e) in fac) > 60 or len(fac) >= 20


@law("C11", Each(lambda tier: [100, 1000, 1023, 1024, 1025, 2500, 5000] + ([10000, 30000] if tier == "thorough" else []), whole=False), cpu=60)
def large_factorials(n):
    """factorials and primorials of thousands; non-trivial: always"""
    same(call(F.factorial, n), math.factorial(n), "factorial of", n)
    flags = bytearray([1])*(n + 1)
    flags[:2] = b"\0\0"
    for i in range(2, math.isqrt(n) + 1):
        if flags[i]:
            flags[i*i::i] = bytes(len(range(i*i, n + 1, i)))
    ps = [i for i in range(n + 1) if flags[i]]
    same(call(F.primorial, len(ps)), math.prod(ps), "primorial of", len(ps))
    return True


@st.composite
def huge_powers(draw):
    base = draw(st.one_of(st.integers(2, 40), st.integers(2, 10**6), st.integers(10**20, 10**40)))
    base -= base % 4 - 2                    # twice an odd number is no power
    k = draw(st.sampled_from([2, 3, 4, 5, 6, 7, 12, 31, 60, 64, 97, 128, 210, 500]))
    return base, k if base < 10**6 else min(k, 40)


@law("C17", huge_powers(), quick=60, cpu=60)
def powers_of_thousands_of_bits(case):
    """non-trivial: at least 500 bits"""
    b, k = case
    n = b**k
    got = call(C.is_power, n)
    ensure(got and got[0]**got[1] == n and got[1] % k == 0, "is_power of", b, "to the", k, "is", got)
    smaller = [d for d in range(2, 30) if k % d == 0]
    same(got[1], k, "exponent in is_power of", b, "to the", k)
    for d in smaller:
        same(call(C.is_power, n, d), (b**(k//d), d), "is_power of", b, "to the", k, "with exponent", d)
    same(call(C.is_power, n, k + 1), False, "is_power of", b, "to the", k, "with exponent", k + 1)
    same(call(C.is_power, [(b, k)] if b in (2, 3, 5, 7) else [(2, k), (3, 2*k)]), (b, k) if b in (2, 3, 5, 7) else (18, k), "is_power of a factorization")
    same(call(C.is_square, n), b**(k//2) if k % 2 == 0 else False, "is_square of", b, "to the", k)
    for m in (n*n, (n + 1)**2):
        same(call(C.is_square, m), math.isqrt(m), "is_square of a square of", m.bit_length(), "bits")
        same(call(C.is_square, m + 1), False, "is_square of a square of", m.bit_length(), "bits plus one")
        same(call(C.is_square, m - 1), False, "is_square of a square of", m.bit_length(), "bits minus one")
        same(call(C.is_square, 4*m + 4*math.isqrt(m) + 1), 2*math.isqrt(m) + 1, "is_square of a square of", m.bit_length() + 2, "bits")
    if k <= 200:
        f = math.factorial(k)
        same(call(C.is_factorial, f), True, "is_factorial of the factorial of", k)
        same(call(C.is_factorial, f + 1), f == 1, "is_factorial of the factorial of", k, "plus one")
        if k > 3:
            same(call(C.is_factorial, f//k*(k - 1)), False, "is_factorial below the factorial of", k)
    return n.bit_length() >= 500


# ---------------------------------------------------------------------------
# Long periods, large solutions
# ---------------------------------------------------------------------------

@law("C18", st.integers(10**5, 10**9), quick=30, cpu=60)
def long_periods(d):
    """the period of sqrt(d) from the convergents: the least solution of x^2 - d y^2 = +-1 has the length of the period; non-trivial: above 100 terms"""
    if math.isqrt(d)**2 == d:
        d += 1
    x = call(CF.QuadraticIrrational, d)
    per = list(x.fundamental_period)
    same(x.period_length, len(per), "period_length of sqrt", d)
    r = math.isqrt(d)
    same(list(x.pre_period), [r], "pre_period of sqrt", d)
    P_, Q, a = 0, 1, r
    for (i, t) in enumerate(per):
        P_ = a*Q - P_
        Q = (d - P_*P_)//Q
        a = (r + P_)//Q
        if t != a:
            same(t, a, "partial quotient number", i + 1, "of sqrt", d)
        ensure((Q == 1) == (i == len(per) - 1), "the period of sqrt", d, "ends at", len(per), "but the complete quotient repeats at", i + 1)
    y = call(CF.QuadraticIrrational, d, r % 7, 1)       # a translate has the same period, up to rotation
    same(y.period_length, len(per), "period_length of {} + sqrt({})".format(r % 7, d))
    z = call(CF.QuadraticIrrational, 4*d, 0, 2)         # sqrt(4 d)/2 = sqrt(d)
    same((list(z.pre_period), list(z.fundamental_period)), ([r], per), "expansion of sqrt({})/2".format(4*d))
    conv = call_list(lambda: itertools.islice(x.convergents(), len(per)), limit=len(per) + 1)
    (u, v) = conv[-1]
    same(u*u - d*v*v, (-1)**len(per), "u^2 - d v^2 at the end of the period of sqrt", d)
    return len(per) >= 100


@law("C19", st.integers(10**4, 2*10**6), quick=30, cpu=60)
def large_pell_solutions(D):
    """solutions of hundreds of digits; minimality by the recurrence of the complete quotients; non-trivial: more than 30 digits"""
    if math.isqrt(D)**2 == D:
        D += 1
    r = math.isqrt(D)
    p0, p1, q0, q1 = 1, r, 0, 1
    P_, Q, a = 0, 1, r
    first = None
    while True:
        n = p1*p1 - D*q1*q1
        if n in (1, -1):
            if first is None:
                first = (p1, q1, n)
            if n == 1:
                break
        P_ = a*Q - P_
        Q = (D - P_*P_)//Q
        a = (r + P_)//Q
        p0, p1, q0, q1 = p1, a*p1 + p0, q1, a*q1 + q0
        if first is not None and first[2] == -1:    # the square of the solution of norm -1
            u, v, _ = first
            p1, q1 = u*u + D*v*v, 2*u*v
            break
    same(call(P.pell_fundamental_solution, D), (p1, q1), "pell_fundamental_solution", D)
    same(call(call(P.PellEquation, D, 1).resolvent_solution), (p1, q1), "resolvent_solution", D)
    if first[2] == -1:
        same(call(P.pell_fundamental_solution, D, -1), first[:2], "pell_fundamental_solution", D, -1)
    else:
        must_raise(ValueError, P.pell_fundamental_solution, D, -1)
    return p1 > 10**30


@law("C20", Each(lambda tier: [60, 101, 160] if tier == "quick" else [60, 101, 160, 300], whole=False), cpu=120)
def many_bernoulli_numbers(n):
    """against the tangent numbers, and denominators by von Staudt and Clausen; non-trivial: always"""
    got = call(MI.bernoulli_list, n)
    same(len(got), n + 1, "length of bernoulli_list", n)
    half = n//2
    T_ = [0]*(half + 2)
    T_[1] = 1
    for k in range(2, half + 1):
        T_[k] = (k - 1)*T_[k - 1]
    for k in range(2, half + 1):
        for j in range(k, half + 1):
            T_[j] = (j - k)*T_[j - 1] + (j - k + 2)*T_[j]
    for m in range(n + 1):
        if m == 0:
            want = 1
        elif m == 1:
            want = Fraction(-1, 2)
        elif m % 2:
            want = 0
        else:
            want = Fraction((-1)**(m//2 - 1)*m*T_[m//2], 2**m*(2**m - 1))
            same(want.denominator, math.prod(p for p in gens.SMALL_PRIMES if p <= m + 1 and m % (p - 1) == 0), "denominator of Bernoulli number", m)
        same(got[m], want, "Bernoulli number", m)
    return True


# ---------------------------------------------------------------------------
# Residues modulo large numbers
# ---------------------------------------------------------------------------

# primes of 100 to 700 bits: Mersenne primes and primes of the form 2^a +- small, k 2^a + 1
BIG_PRIMES = [2**107 - 1, 2**127 - 1, 2**521 - 1, 2**607 - 1, 2**255 - 19, 2**256 - 189, 2**192 - 237, 2**224 - 2**96 + 1, 2**130 - 5, 3*2**189 + 1, 9*2**134 + 1]


@law("C16", st.tuples(st.sampled_from(BIG_PRIMES), st.integers(0, 10**60), st.integers(1, 3), st.integers(1, 99)), quick=60, cpu=60)
def roots_modulo_large_primes(case):
    """square roots modulo primes of hundreds of bits, their powers, and small multiples; non-trivial: a unit"""
    p, x, k, m = case
    x = pow(x + 2, 5, p)
    a = x*x % p
    same(sorted(call(Z.sqrts_mod_p, a, p)), sorted({x, p - x}), "sqrts_mod_p of", a, "modulo", p)
    z = next(z for z in range(2, 200) if pow(z, (p - 1)//2, p) == p - 1)
    same(list(call(Z.sqrts_mod_p, a*z % p, p)), [], "sqrts_mod_p of a nonresidue modulo", p)
    q = p**k
    b = (x*x) % q
    same(sorted(call(Z.sqrts_mod_n, b, q, [(p, k)])), sorted({x % q, (q - x) % q}), "sqrts_mod_n of", b, "modulo", p, "to the", k)
    n = p*(2*m + 1)
    g = math.gcd(m, 2*m + 1)
    small = [y for y in range(2*m + 1) if (y*y - x*x) % (2*m + 1) == 0]
    inv = pow(p, -1, 2*m + 1)
    want = sorted((s + p*((y - s)*inv % (2*m + 1))) % n for s in {x, p - x} for y in small)
    fac = gens_factor(2*m + 1) + [(p, 1)]
    same(sorted(call(Z.sqrts_mod_n, x*x % n, n, fac)), want, "sqrts_mod_n of a square modulo", 2*m + 1, "times", p)
    c = pow(x + 3, 3, p)
    got = call(Z.linear_congruence, x, c, p) if x else None
    if x:
        same(list(got), [c*pow(x, -1, p) % p], "linear_congruence", (x, c, p))
    return x != 0


def gens_factor(n):
    out = []
    p = 2
    while n > 1:
        e = 0
        while n % p == 0:
            n //= p
            e += 1
        if e:
            out.append((p, e))
        p += 1
    return out


@law("C15", st.tuples(st.sampled_from([2, 3, 5, 7, 11, 101]), st.sampled_from([12, 20, 31, 32, 33, 63, 64, 65, 90]), st.integers(0, 10**9)), quick=60, cpu=60)
def orders_modulo_huge_powers(case):
    """elements of known order modulo p^k with k up to 90; non-trivial: always"""
    p, k, seed = case
    r = random.Random(seed)
    n = p**k
    j = r.randrange(1, k)                    # 1 + c p^j has order p^(k - j) for odd p (and for p = 2 when j >= 2)
    if p == 2:
        j = max(2, j)
    c = r.randrange(1, p**9)*p + 1
    a = (1 + c*p**j) % n
    same(call(Z.multiplicative_order, a, n), p**(k - j), "multiplicative_order of 1 + c p^j modulo", (p, k), "with j =", j)
    same(call(Z.multiplicative_order, n - 1, n), 2, "multiplicative_order of -1 modulo", (p, k))
    if p > 2:
        g = call(Z.primitive_root, n)
        phi = n//p*(p - 1)
        ensure(all(pow(g, phi//q, n) != 1 for q in {p} | {f for (f, e) in gens_factor(p - 1)}), "primitive_root of", (p, k), "is", g)
        same(call(Z.multiplicative_order, g, n), phi, "multiplicative_order of a primitive root modulo", (p, k))
        same(call(Z.is_primitive_root, g, n), True, "is_primitive_root of the primitive root modulo", (p, k))
        same(call(Z.is_primitive_root, g*g % n, n), False, "is_primitive_root of a square modulo", (p, k))
        same(call(Z.primitive_root, 2*n) % 2, 1, "primitive_root of twice", (p, k), "is odd")
    return True


@law("C05", st.tuples(st.sampled_from(BIG_PRIMES), st.sampled_from(BIG_PRIMES), st.integers(0, 10**9)), quick=40, cpu=60)
def primes_of_hundreds_of_bits(case):
    """primes pass every test, products of two are rejected (each product fails 20 random bases with probability above 1 - 4^-20); non-trivial: always"""
    p, q, seed = case
    random.seed(seed)
    r = random.Random(seed)
    for fn in (PR.is_probable_prime, PR.miller_rabin, PR.solovay_strassen):
        same(call(fn, p), True, fn.__name__, p)
    for a in (2, 3, r.randrange(2, p - 1), p - 2):
        same(call(PR.miller_rabin, p, a), True, "miller_rabin", p, a)
        same(call(PR.solovay_strassen, p, a), True, "solovay_strassen", p, a)
    n = p*q
    for fn in (PR.is_probable_prime, PR.is_prime):
        same(call(fn, n), False, fn.__name__, "of the product of", p, "and", q)
    for fn in (PR.miller_rabin, PR.solovay_strassen):
        ensure(not all(call(fn, n) for _ in range(20)), fn.__name__, "accepts the product of", p, "and", q, "with twenty random bases")
    return True


# ---------------------------------------------------------------------------
# Series and matrices
# ---------------------------------------------------------------------------

def pack(L, bits):
    return sum(c << (i*bits) for (i, c) in enumerate(L))


def unpack(n, bits, count):
    out = []
    half = 1 << (bits - 1)
    for _ in range(count):
        c = n & ((1 << bits) - 1)
        if c >= half:
            c -= 1 << bits
        out.append(c)
        n = (n - c) >> bits
    return out


def product_ref(A, B, count):
    bits = (max(map(abs, A), default=0) + 1).bit_length() + (max(map(abs, B), default=0) + 1).bit_length() + len(A).bit_length() + 3
    return unpack(pack(A, bits)*pack(B, bits), bits, count)


@law("C24", st.tuples(st.sampled_from([170, 320, 321, 640]), st.sampled_from([0, 1, 17, 150]), st.sampled_from([3, 10**6, 10**30]), st.integers(0, 10**9)), quick=12, cpu=60)
def long_series(case):
    """products, inverses and powers of series with hundreds of terms; non-trivial: always"""
    n, shorter, top, seed = case
    r = random.Random(seed)
    A = [1] + [r.randint(-top, top) for _ in range(n - 1)]
    B = [r.choice([1, -1])] + [r.randint(-top, top) if r.random() < 0.5 else 0 for _ in range(n - 1 - shorter if shorter < n else 2)]
    want = product_ref(A, B, len(A) + len(B) - 1)
    for fn in (PS.ps_mult_classical, PS.ps_mult_karatsuba):
        got = list(call(fn, list(A), list(B)))
        same((got[:len(want)], any(got[len(want):])), (want, False), fn.__name__, case)
    few = [c % 7 - 3 for c in B]
    few[0] = B[0]
    inv = call(PS.ps_invert, list(few))
    same(product_ref(few, inv, len(few)), [1] + [0]*(len(few) - 1), "series times ps_invert of it", case)
    short = [c % 7 - 3 for c in A[:200]]
    short[0] = 1
    acc = [1] + [0]*(len(short) - 1)
    for k in range(1, 6):
        acc = product_ref(acc, short, len(short))
        same(call(PS.ps_power, list(short), k), acc, "ps_power", k, case)
    return True


@law("C24", Each(lambda tier: [1999, 5000, 12345] if tier == "quick" else [1999, 5000, 12345, 100000], whole=False), cpu=60)
def long_eta_products(n):
    """pentagonal numbers and multiplicativity of the coefficients; non-trivial: always"""
    want = [0]*(n + 1)
    k = 0
    while k*(3*k - 1)//2 <= n:
        for m in {k*(3*k - 1)//2, k*(3*k + 1)//2}:
            if m <= n:
                want[m] = (-1)**k
        k += 1
    same(list(call(PS.eta_series, n)), want[:n], "eta_series", n)
    m = min(n//5, 1500)
    d = [0] + list(call(PS.delta_series, m))     # coefficients of q, q^2, ...
    for p in (2, 3, 5, 7, 11, 13):          # tau(p n) = tau(p) tau(n) - p^11 tau(n/p)
        for k in range(1, m//p + 1):
            same(d[p*k], d[p]*d[k] - (p**11*d[k//p] if k % p == 0 else 0), "Hecke relation of the coefficients of delta at", (p, k))
    for k in range(1, m + 1):               # Ramanujan's congruence
        if (d[k] - sum(pow(j, 11, 691) + (pow(k//j, 11, 691) if j*j != k else 0) for j in range(1, math.isqrt(k) + 1) if k % j == 0)) % 691:
            ensure(False, "coefficient", k, "of delta modulo 691")
    return True


def matrix_of(rows, cls=Matrix):
    M = call(cls, len(rows), len(rows[0]))
    for (i, row) in enumerate(rows):
        for (j, x) in enumerate(row):
            M[i, j] = x
    return M


def rows_of(M, m, n):
    return [[M[i, j] for j in range(n)] for i in range(m)]


def determinant_mod(rows, p):
    rows = [[x % p for x in row] for row in rows]
    n = len(rows)
    det = 1
    for i in range(n):
        k = next((k for k in range(i, n) if rows[k][i]), None)
        if k is None:
            return 0
        if k != i:
            rows[i], rows[k] = rows[k], rows[i]
            det = -det
        det = det*rows[i][i] % p
        inv = pow(rows[i][i], -1, p)
        for k in range(i + 1, n):
            c = rows[k][i]*inv % p
            if c:
                rows[k] = [(x - c*y) % p for (x, y) in zip(rows[k], rows[i])]
    return det % p


@law("C23", st.tuples(st.sampled_from([8, 11, 16, 25]), st.sampled_from(["random", "random", "sparse", "rank", "zeros", "permutation", "triangular"]),
                      st.sampled_from([1, 9, 10**6, 10**25]), st.integers(0, 10**9)), quick=40, cpu=60)
def large_matrices(case):
    """determinants modulo large primes against elimination, products and sums entry by entry; non-trivial: nonzero determinant"""
    n, kind, top, seed = case
    r = random.Random(seed)
    if kind == "sparse":
        A = [[r.randint(-top, top) if r.random() < 0.3 else 0 for _ in range(n)] for _ in range(n)]
    elif kind == "rank":
        A = [[r.randint(-top, top) for _ in range(n)] for _ in range(n - 1)]
        A.insert(r.randrange(n), [sum(t) for t in zip(*r.sample(A, 3))])
    elif kind == "permutation":
        s = r.sample(range(n), n)
        A = [[r.randint(1, top) if s[i] == j else 0 for j in range(n)] for i in range(n)]
    else:
        A = [[r.randint(-top, top) for _ in range(n)] for _ in range(n)]
        if kind == "zeros":
            for i in range(n):
                for j in range(min(n, 3)):
                    A[i][j] = 0 if i < n - 3 else A[i][j]
        if kind == "triangular":
            A = [[A[i][j] if j <= i else 0 for j in range(n)] for i in range(n)][::-1]
    B = [[r.randint(-top, top) for _ in range(n + 3)] for _ in range(n)]
    M, N = matrix_of(A), matrix_of(B)
    det = call(M.determinant)
    for p in (2**61 - 1, 2**89 - 1, 2**107 - 1):
        same(det % p, determinant_mod(A, p), "determinant modulo", p, case)
    ensure(abs(det) <= (math.isqrt(n*top*top) + 1)**n, "determinant above the bound of Hadamard", case)
    same(rows_of(M, n, n), A, "the matrix is not changed")
    same(rows_of(call(lambda: M*N), n, n + 3), [[sum(A[i][k]*B[k][j] for k in range(n)) for j in range(n + 3)] for i in range(n)], "product", case)
    same(rows_of(call(lambda: M + M), n, n), [[2*x for x in row] for row in A], "sum", case)
    same(rows_of(call(lambda: 3*N - N), n, n + 3), [[2*x for x in row] for row in B], "difference", case)
    same(call(call(lambda: -M).determinant), (-1)**n*det, "determinant of the negative", case)
    return det != 0


# ---------------------------------------------------------------------------
# Large counts
# ---------------------------------------------------------------------------

@law("C25", Each(lambda tier: [(kind, n) for kind in ("partitions", "bell", "stirling", "binomials", "necklaces", "bipartitions") for n in ((150, 400) if tier == "quick" else (150, 400, 900))], whole=False), cpu=120)
def large_counts(case):
    """counts of hundreds of digits; non-trivial: always"""
    kind, n = case
    if kind == "partitions":
        n *= 6
        ways = [1] + [0]*n
        for k in range(1, n + 1):
            for j in range(k, n + 1):
                ways[j] += ways[j - k]
        same(call(EN.partition_list, n), ways, "partition_list", n)
        for m in (n, n - 1, n - 7, n//2):
            same(call(EN.partition_number, m), ways[m], "partition_number", m)
    elif kind == "bell":
        n = min(n, 400)
        row = [1]
        bells = [1]
        for _ in range(n):
            new = [row[-1]]
            for x in row:
                new.append(new[-1] + x)
            row = new
            bells.append(row[0])
        for m in (n, n - 1, n//2, n//3):
            same(call(EN.bell_number, m), bells[m], "bell_number", m)
    elif kind == "stirling":
        row = [1]
        rows = [row]
        for m in range(1, n + 1):
            row = [(k*row[k] if k < m else 0) + (row[k - 1] if k else 0) for k in range(m + 1)]
            rows.append(row)
        for m in (n, n - 1, n//2):
            for k in (0, 1, 2, 3, m//3, m//2, m - 2, m - 1, m):
                same(call(EN.stirling_number2, m, k), rows[m][k], "stirling_number2", (m, k))
    elif kind == "binomials":
        n *= 10
        for m in (n, n + 1):
            for k in (0, 1, 2, 3, m//3, m//2, (m + 1)//2, m - 3, m - 1, m):
                same(call(EN.binomial, m, k), math.comb(m, k), "binomial", (m, k))
        parts = [n//10, n//5, n//2, 3, 2, 1]
        total = math.factorial(sum(parts))
        for k in parts:
            total //= math.factorial(k)
        same(call(EN.multinomial, sum(parts), parts), total, "multinomial", parts)
    elif kind == "necklaces":
        for m in (n, n - 1, n//2):
            for k in (2, 3, 10):
                same(call(EN.necklaces, m, k), sum(k**math.gcd(i, m) for i in range(m))//m, "necklaces", (m, k))
    else:
        n //= 10
        ways = [[0]*(n + 1) for _ in range(n + 1)]
        ways[0][0] = 1
        for a in range(n + 1):
            for b in range(n + 1):
                if a or b:
                    for x in range(a, n + 1):
                        for y in range(b, n + 1):
                            if ways[x - a][y - b]:
                                ways[x][y] += ways[x - a][y - b]
        for (x, y) in ((n, n), (n, n - 1), (n//2, n), (n, 0), (1, n)):
            same(call(EN.bipartitions, x, y), ways[x][y], "bipartitions", (x, y))
    return True


# ---------------------------------------------------------------------------
# Tours
# ---------------------------------------------------------------------------

def insertion_ref(D, sym):
    """The tour of farthest insertion as cyclic successors with its weight, or None when a choice is not unique."""
    n = len(D)
    near = {v: D[0][v] for v in range(1, n)}
    nxt = {0: 0}
    total = 0
    while near:
        top = max(near.values())
        far = [v for v in near if near[v] == top]
        if len(far) > 1:
            return None
        f = far[0]
        del near[f]
        costs = {u: D[u][f] + D[f][v] - (D[u][v] if u != v else 0) for (u, v) in nxt.items()}
        low = min(costs.values())
        at = [u for u in costs if costs[u] == low]
        if len(at) > 1 and not (sym and len(nxt) == 2):     # the two arcs between two cities: only the direction differs
            return None
        nxt[f] = nxt[at[0]]
        nxt[at[0]] = f
        total += low
        for v in near:
            near[v] = min(near[v], D[f][v])
    return total, nxt


@law("C30", st.tuples(st.integers(2, 60), st.booleans(), st.sampled_from([1000, 10**6, 10**12]), st.integers(0, 10**9)), quick=100, cpu=60)
def farthest_insertion_is_determined(case):
    """distance matrices, also asymmetric ones: when no choice is tied, the farthest city enters at the cheapest place; non-trivial: at least five cities"""
    n, sym, top, seed = case
    r = random.Random(seed)
    D = [[r.randint(1, top) for _ in range(n)] for _ in range(n)]
    for i in range(n):
        D[i][i] = INF
        for j in range(i):
            if sym:
                D[i][j] = D[j][i]
    ref = insertion_ref(D, sym)
    pts = [(i, i*i % 11) for i in range(n)]
    w, path = call(TS.farthest_insertion, pts, [list(row) for row in D])
    same(sorted(path), list(range(n)), "cities in the tour of farthest_insertion")
    same(w, sum(D[u][v] for (u, v) in zip(path, path[1:] + path[:1])), "weight of the tour of farthest_insertion", case)
    if ref is None:
        return False
    total, nxt = ref
    same(w, total, "weight of farthest_insertion", case)
    back = {v: u for (u, v) in nxt.items()}
    tours = (nxt, back) if sym else (nxt,)
    ensure(dict(zip(path, path[1:] + path[:1])) in tours, "tour of farthest_insertion", path, case)
    ensure(dict(call(TS.farthest_insertion, pts, [list(row) for row in D], edges=True)) in tours, "edges of farthest_insertion", case)
    return n >= 5


@law("C30", st.tuples(st.sampled_from([30, 45, 70]), st.sampled_from(["plane", "grid", "circle", "line"]), st.integers(0, 10**9)), quick=12, cpu=60)
def tours_of_many_cities(case):
    """two-exchange heuristics on dozens of cities; on a circle the optimum is known; non-trivial: always"""
    n, kind, seed = case
    r = random.Random(seed)
    if kind == "plane":
        pts = [(r.randint(0, 999), r.randint(0, 999)) for _ in range(n)]
    elif kind == "grid":
        pts = r.sample([(i, j) for i in range(12) for j in range(12)], n)
    elif kind == "line":
        pts = [(x, 0) for x in r.sample(range(5*n), n)]
    else:
        pts = [(1000*math.cos(t), 1000*math.sin(t)) for t in sorted(r.random()*2*math.pi for _ in range(n))]
        order = r.sample(range(n), n)
        pts = [pts[i] for i in order]
    D = [[INF if i == j else math.hypot(a - c, b - d) for (j, (c, d)) in enumerate(pts)] for (i, (a, b)) in enumerate(pts)]

    def length(path):
        return sum(D[u][v] for (u, v) in zip(path, path[1:] + path[:1]))
    low = None
    if kind == "circle":
        around = sorted(range(n), key=lambda i: math.atan2(pts[i][1], pts[i][0]))
        low = length(around)
    elif kind == "line":
        low = 2*(max(x for (x, y) in pts) - min(x for (x, y) in pts))
    start, path0 = call(TS.farthest_insertion, pts)
    for (fn, above) in ((TS.farthest_insertion, None), (TS.steepest_ascent_two_opt, start), (TS.two_opt, length(list(range(n))))):
        w, path = call(fn, pts)
        same(sorted(path), list(range(n)), "cities in the tour of", fn.__name__)
        ensure(abs(w - length(path)) <= 1e-6*w, fn.__name__, "reports", w, "for a tour of length", length(path))
        if above is not None:
            ensure(w <= above*(1 + 1e-9), fn.__name__, "ends above its starting tour", w, above)
        if low is not None:
            ensure(w >= low*(1 - 1e-9), fn.__name__, "reports", w, "below the optimum", low)
            if kind == "circle" and above is not None:      # no crossing remains, so the tour is the convex polygon
                ensure(w <= low + 1e-3, fn.__name__, "stops at", w, "on a circle of tour length", low)
    return True


# ---------------------------------------------------------------------------
# Graphs of hundreds of vertices
# ---------------------------------------------------------------------------

@law("C36", Each(lambda tier: [(shape, n, seed) for seed in range(1 if tier == "quick" else 6) for shape in ("path", "star", "binary", "chords", "ladder", "random") for n in (60, 150)], whole=False), shards=2, cpu=60)
def views_of_hundreds(case):
    """derived views of graphs of hundreds of vertices; non-trivial: always"""
    shape, n, seed = case
    if shape == "random":
        r = random.Random(seed)
        vertices = r.sample(range(-n, 5*n), n)
        edges = [(u, v, r.randint(-5, 9)) for (u, v) in itertools.combinations(vertices, 2) if r.random() < 0.2]
    else:
        vertices, edges, a, b = deep_graph(shape, n, seed)
        r = random.Random(seed)
    g = call(mk_graph, (vertices, edges))
    adj = neighbors_of(vertices, edges)
    order = sorted(vertices)
    same(call(g.num_vertices), n, "num_vertices")
    same(call(g.num_edges), len(edges), "num_edges")
    same(call(g.edge_set), {(min(u, v), max(u, v)) for (u, v, w) in edges}, "edge_set")
    same(call(g.edge_set, weights=True), {(min(u, v), max(u, v), w) for (u, v, w) in edges}, "edge_set with weights")
    deg = {u: len(adj[u]) for u in vertices}
    same({u: call(g.degree, u) for u in vertices}, deg, "degrees")
    same((call(g.maximum_degree), call(g.minimum_degree)), (max(deg.values()), min(deg.values())), "extreme degrees")
    same(deg[call(g.maximum_degree_vertex)], max(deg.values()), "degree of maximum_degree_vertex")
    same(deg[call(g.minimum_degree_vertex)], min(deg.values()), "degree of minimum_degree_vertex")
    same(sorted(call(g.leaves)), sorted(u for u in vertices if deg[u] == 1), "leaves")
    A = call(g.adjacency_matrix)
    L = call(g.laplacian_matrix)
    for (i, u) in enumerate(order):
        for (j, v) in enumerate(order):
            e = 1 if v in adj[u] else 0
            ensure(A[i][j] == e if isinstance(A, list) else A[i, j] == e, "adjacency_matrix entry", (u, v))
            x = L[i][j] if isinstance(L, list) else L[i, j]
            ensure(x == (deg[u] if u == v else -e), "laplacian_matrix entry", (u, v))
    H = call(g.complement)
    same(call(H.edge_set), {(u, v) for (u, v) in itertools.combinations(order, 2) if v not in adj[u]}, "complement")
    part = r.sample(vertices, n//2)
    S = call(g.induced_subgraph, part)
    keep = set(part)
    same((sorted(call(S.vertex_set)), call(S.edge_set, weights=True)),
         (sorted(part), {(min(u, v), max(u, v), w) for (u, v, w) in edges if u in keep and v in keep}), "induced_subgraph")
    for (kind, ref) in (("degree", lambda seq: [deg[u] for u in seq]),):
        seq = call(g.vertices, order=kind)
        same(sorted(seq), order, "vertices in the order", kind)
    return True


@law("C35", Each(lambda tier: [(n, seed) for seed in range(4 if tier == "quick" else 40) for n in (40, 120)], whole=False), shards=2, cpu=60)
def long_graph_histories(case):
    """hundreds of mutations of a graph of dozens of vertices against a dictionary model; non-trivial: always"""
    n, seed = case
    r = random.Random("{}".format(case))
    g = call(GR.Graph)
    model = {}
    old = None
    for step in range(6*n):
        watched, old = old, None
        before = None if watched is None else call(watched.edge_set, weights=True)
        kind = r.choice(["vertex", "edge", "edge", "edge", "edge", "edges", "unedge", "unvertex", "hood", "closed", "many"])
        if kind in ("hood", "closed", "unvertex", "many") and r.random() < 0.7:
            kind = "edge"
        present = list(model)
        if kind == "vertex" or not present:
            u = r.randrange(2*n)
            call(g.add_vertex, u)
            model.setdefault(u, {})
        elif kind == "edge":
            u, v = r.sample(range(2*n), 2)
            w = r.randint(1, 9)
            call(g.add_edge, u, v, weight=w) if r.random() < 0.7 else call(g.add_edge, u, v, w)
            model.setdefault(u, {})[v] = w
            model.setdefault(v, {})[u] = w
        elif kind == "edges":
            L = []
            for _ in range(5):
                u, v = r.sample(range(2*n), 2)
                L.append((u, v, r.randint(1, 9)))
                model.setdefault(u, {})[v] = L[-1][2]
                model.setdefault(v, {})[u] = L[-1][2]
            call(g.add_edges, L)
        elif kind == "unedge":
            full = [u for u in present if model[u]]
            if full:
                u = r.choice(full)
                v = r.choice(list(model[u]))
                if r.random() < 0.5:
                    call(g.delete_edge, u, v)
                else:
                    old, g = g, call(g.remove_edge, u, v)
                del model[u][v], model[v][u]
        else:
            u = r.choice(present)
            gone = {"unvertex": {u}, "hood": set(model[u]), "closed": set(model[u]) | {u}, "many": set(r.sample(present, min(3, len(present))))}[kind]
            if kind == "unvertex":
                if r.random() < 0.5:
                    call(g.delete_vertex, u)
                else:
                    old, g = g, call(g.remove_vertex, u)
            elif kind == "hood":
                old, g = g, call(g.remove_neighborhood, u)
            elif kind == "closed":
                old, g = g, call(g.remove_closed_neighborhood, u)
            elif r.random() < 0.5:
                call(g.delete_vertices, list(gone))
            else:
                old, g = g, call(g.remove_vertices, list(gone))
            for v in gone:
                for x in model.pop(v):
                    if x in model:
                        model[x].pop(v, None)
        if before is not None:
            same(call(watched.edge_set, weights=True), before, "the graph that a copy was taken from, after", step, "operations", case)
        if step % 10 == 0 or step > 6*n - 5:
            same(call(g.vertex_set), set(model), "vertices after", step, "operations", case)
            same(call(g.edge_set, weights=True), {(u, v, w) for u in model for (v, w) in model[u].items() if u < v}, "edges after", step, "operations", case)
            same({u: set(call(g.neighbors, u)) for u in model}, {u: set(model[u]) for u in model}, "neighbors after", step, "operations", case)
    return True


def bipartite_or_cycle(kind, n, seed):
    r = random.Random("{} {} {}".format(kind, n, seed))
    if kind in ("path", "comb", "binary", "star"):
        vertices, edges, a, b = deep_graph(kind, n, seed)
        return vertices, edges, 2
    if kind in ("even", "odd"):
        n = n + n % 2 + (kind == "odd")
        vertices, edges, a, b = deep_graph("cycle", n, seed)
        return vertices, edges, 2 + n % 2
    if kind == "bipartite":
        vertices = list(range(n))
        edges = [(u, v, 1) for u in range(0, n, 2) for v in range(1, n, 2) if r.random() < 0.15] + [(i, i + 1, 1) for i in range(n - 1)]
        edges = list({(u, v): (u, v, w) for (u, v, w) in [(min(e[:2]), max(e[:2]), 1) for e in edges]}.values())
        return vertices, edges, 2
    if kind == "clique":        # k classes with all edges between them
        k = 6
        vertices = list(range(n//3))
        return vertices, [(u, v, 1) for (u, v) in itertools.combinations(vertices, 2) if u % k != v % k], k
    if kind == "wheel":
        n |= 1
        return list(range(n + 1)), [(i, (i + 1) % n, 1) for i in range(n)] + [(i, n, 1) for i in range(n)], 4


@law("C44", Each(lambda tier: [(kind, n, seed) for seed in range(2 if tier == "quick" else 10) for n in (60, 130)
                               for kind in ("path", "comb", "binary", "star", "even", "odd", "bipartite", "clique", "wheel")], whole=False), shards=3, cpu=90)
def colorings_of_hundreds(case):
    """graphs of dozens to hundreds of vertices with known chromatic number; non-trivial: always"""
    vertices, edges, chi = bipartite_or_cycle(*case)
    g = call(mk_graph, (vertices, edges))
    top = max(Counter(x for (u, v, w) in edges for x in (u, v)).values())

    def proper(k, classes, what):
        same(len(classes), k, what, "number of classes", case)
        where = {u: i for (i, c) in enumerate(classes) for u in c}
        same((sorted(where), sum(map(len, classes))), (sorted(vertices), len(vertices)), what, "vertices in the classes")
        ensure(all(where[u] != where[v] for (u, v, w) in edges), what, "gives two neighbors one color", case)
    for fn in (CO.branch_and_bound, CO.korman, CO.exact_coloring):
        k, classes = call(fn, g)
        same(k, chi, fn.__name__, "chromatic number", case)
        proper(k, classes, fn.__name__)
    for (fn, kw) in ((CO.dsatur, {}), (CO.greedy_sequential, {}), (CO.greedy_sequential, {"passes": 3})):
        k, classes = call(fn, g, **kw)
        proper(k, classes, fn.__name__)
        ensure(chi <= k <= top + 1, fn.__name__, "uses", k, "colors", case)
        if fn is CO.dsatur and chi == 2:
            same(k, 2, "dsatur on a bipartite graph", case)
    return True


@law("C42", Each(lambda tier: [(kind, n, seed) for seed in range(2 if tier == "quick" else 8) for n in (80, 200)
                               for kind in ("path", "binary", "star", "odd", "wheel", "sparse")], whole=False), shards=2, cpu=90)
def cliques_of_hundreds(case):
    """sparse graphs of hundreds of vertices, where the maximal cliques are read off the common neighborhoods; non-trivial: always"""
    kind, n, seed = case
    if kind == "sparse":
        r = random.Random(seed)
        vertices = r.sample(range(3*n), n)
        edges = [(u, v, 1) for (u, v) in itertools.combinations(vertices, 2) if r.random() < 4/n]
    else:
        vertices, edges, chi = bipartite_or_cycle(kind, n, seed)
    g = call(mk_graph, (vertices, edges))
    adj = {u: set(d) for (u, d) in neighbors_of(vertices, edges).items()}
    level = {frozenset([u]) for u in vertices}
    want = set()
    while level:
        new = set()
        for S in level:
            common = set.intersection(*[adj[u] for u in S])
            if common:
                new.update(S | {x} for x in common)
            else:
                want.add(S)
        level = new
    for fn in (CL.bron_kerbosch, CL.bron_kerbosch_binary, CL.tomita, CL.maximal_cliques):
        got = [frozenset(c) for c in call_list(fn, g, limit=len(want) + 1)]
        same(len(got), len(want), fn.__name__, "number of maximal cliques", case)
        ensure(set(got) == want, fn.__name__, "maximal cliques", case, set(got) ^ want)
    return True


@law("C43", Each(lambda tier: [(kind, n, seed) for seed in range(2 if tier == "quick" else 8) for n in (80, 200)
                               for kind in ("path", "binary", "star", "odd", "wheel", "sparse", "bipartite")], whole=False), shards=2, cpu=90)
def clique_numbers_of_hundreds(case):
    """sparse graphs of hundreds of vertices; non-trivial: always"""
    kind, n, seed = case
    if kind == "sparse":
        r = random.Random(seed)
        vertices = r.sample(range(1, 3*n), n)
        edges = [(u, v, 1) for (u, v) in itertools.combinations(vertices, 2) if r.random() < 4/n]
    else:
        vertices, edges, chi = bipartite_or_cycle(kind, n, seed)
        vertices = [v + 1 for v in vertices]
        edges = [(u + 1, v + 1, w) for (u, v, w) in edges]
    g = call(mk_graph, (vertices, edges))
    adj = {u: set(d) for (u, d) in neighbors_of(vertices, edges).items()}
    best = size = 0
    level = {frozenset([u]) for u in vertices}
    while level:
        size += 1
        best = max(best, max(map(sum, level)))
        level = {S | {x} for S in level for x in set.intersection(*[adj[u] for u in S])}
    for fn in (CL.pardalos, CL.pardalos_binary, CL.ostergard, CL.ostergard_binary, CL.maximum_clique):
        k, S = call(fn, g)
        ensure(len(set(S)) == k and all(v in adj[u] for (u, v) in itertools.combinations(S, 2)), fn.__name__, "gives", S)
        same(k, size, fn.__name__, "clique number", case)
    w, S = call(CL.maximum_weight_clique, g)
    ensure(all(v in adj[u] for (u, v) in itertools.combinations(S, 2)), "maximum_weight_clique gives", S)
    same((w, sum(S)), (best, best), "maximum_weight_clique", case)
    k, S = call(IS.greedy, g)
    ensure(len(set(S)) == k and not any(v in adj[u] for (u, v) in itertools.combinations(S, 2)), "greedy independent set", S)
    ensure(all(u in set(S) or adj[u] & set(S) for u in vertices), "greedy independent set is not maximal", case)
    return True


@law("C46", Each(lambda tier: [(kind, n, seed) for seed in range(3 if tier == "quick" else 20) for n in (150, 600)
                               for kind in ("graph", "graph", "regular", "threshold", "near", "odd", "top")], whole=False), shards=2, cpu=90)
def long_degree_sequences(case):
    """degree sequences of hundreds of terms: of graphs, of threshold graphs (where the inequalities are equalities) and just above those; non-trivial: always"""
    kind, n, seed = case
    r = random.Random("{}".format(case))
    deg = [0]*n
    want = True
    if kind in ("graph", "odd"):
        d = r.choice([0.02, 0.1, 0.5])
        for (i, j) in itertools.combinations(range(n), 2):
            if r.random() < d:
                deg[i] += 1
                deg[j] += 1
        if kind == "odd":
            deg[r.randrange(n)] += 1
            want = False
    elif kind == "regular":
        k = r.choice([1, 2, 3, n//7, n//2, n - 1])
        deg = [k]*n
        want = n*k % 2 == 0
    else:
        for i in range(1, n):                   # threshold graph: each new vertex sees none or all of those before
            if r.random() < 0.5:
                deg[i] = i
                for j in range(i):
                    deg[j] += 1
        if kind == "near":                      # the degrees of a threshold graph are extreme: moving one unit upwards leaves the polytope
            deg.sort()
            i, j = r.randrange(n//2), r.randrange(n//2, n)
            if deg[i] > 0 and deg[j] < n - 1 and deg[j] >= deg[i]:
                deg[i] -= 1
                deg[j] += 1
                want = False
        elif kind == "top":
            deg[r.randrange(n)] = n
            want = False
    r.shuffle(deg)
    same(call(DS.is_graphic_erdos_gallai, list(deg)), want, "is_graphic_erdos_gallai", case)
    same(call(DS.is_graphic, list(deg)), want, "is_graphic", case)
    return True


@law("C47", Each(lambda tier: [(n, seed) for seed in range(3) for n in (2000, 9000, 90000)[:3 if seed == 0 else 2]], whole=False), cpu=60)
def thousands_of_remembered_values(case):
    """thousands of argument tuples, first in one order and then in another: each is evaluated once; non-trivial: always"""
    n, seed = case
    r = random.Random("{}".format(case))
    count = Counter()

    def f(*args):
        count[args] += 1
        return ("value", args)
    g = call(cached_function, f)
    keys = [(i,) for i in range(n)] + [(i, -i) for i in range(n//2)] + [("s{}".format(i),) for i in range(n//2)] + [((i, i),) for i in range(n//4)]
    for _ in range(3):
        r.shuffle(keys)
        for key in keys:
            v = call(g, *key)
            if v != ("value", key):
                same(v, ("value", key), "value at", key)
    same((max(count.values()), len(count)), (1, len(keys)), "evaluations per argument and arguments evaluated")

    def fib(k):
        return k if k < 2 else h(k - 1) + h(k - 2)
    h = call(cached_function, fib)
    a, b = 0, 1
    for k in range(0, 1500):
        same(call(h, k), a, "memoized Fibonacci number", k)
        a, b = b, a + b
    return True
