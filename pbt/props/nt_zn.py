"""C15-C16: orders, primitive roots, discrete logarithms; roots and congruences modulo n."""
import functools
import math

from hypothesis import strategies as st
from sympy import factorint as sym_factorint
from sympy.ntheory import sqrt_mod as sym_sqrt_mod

from pbt.core import Each, Reject, call, ensure, is_int, law, must_raise, same
from pbt.gens import SMALL_PRIMES, big_primes, factored, ints, product
from pbt.props.nt_factor import fac_ref, small_factor, divisors_ref

from rosemary.number_theory import zn_arithmetic as Z


def phi_of(f):
    r = 1
    for (p, e) in f:
        r *= p**(e - 1)*(p - 1)
    return r


def order_naive(a, n):
    """Order of a modulo n by repeated multiplication, or None."""
    if math.gcd(a, n) != 1:
        return None
    a %= n
    v, k = a, 1
    while v % n != 1 % n:
        v = v*a % n
        k += 1
    return k


def order_ref(a, n, f):
    """Order of a modulo n = product(f), gcd(a, n) = 1."""
    k = phi_of(f)
    for (q, _) in fac_ref(k) if k > 1 else []:
        while k % q == 0 and pow(a, k//q, n) == 1 % n:
            k //= q
    return k


def has_primitive_root(f):
    if f in ([(2, 1)], [(2, 2)]):
        return True
    odd = [(p, e) for (p, e) in f if p > 2]
    two = [(p, e) for (p, e) in f if p == 2]
    return len(odd) == 1 and (not two or two == [(2, 1)])


# A few primes whose p - 1 has a large power of 2 or is very smooth or nearly prime.
SPECIAL_PRIMES = [17, 97, 193, 257, 641, 769, 7681, 12289, 40961, 65537, 786433, 998244353, 2013265921, 3221225473,
                  10007, 32749, 1000003, 2147483647, 4294967291, 2**61 - 1]


# ------------------------------------------------------------------ C15

@law("C15", Each(lambda tier: range(2, 160 if tier == "quick" else 900)), shards=2)
def orders_small(n):
    """every residue class (also unreduced and negative representatives) modulo every small n; non-trivial: composite n"""
    f = small_factor(n)
    phi = phi_of(f)
    orders = {}
    for a in range(n):
        orders[a] = order_naive(a, n)
    divs = divisors_ref(f) and sorted(d for d in range(1, phi + 1) if phi % d == 0)
    qs = [q for (q, _) in small_factor(phi)]
    least = None
    for a in range(n):
        o = orders[a]
        for rep in (a, a + n, a - n):
            same(call(Z.is_primitive_root, rep, n), o == phi, "is_primitive_root", rep, n)
            if o is None:
                must_raise(ValueError, Z.multiplicative_order, rep, n)
            else:
                same(call(Z.multiplicative_order, rep, n), o, "multiplicative_order", rep, n)
        same(call(Z.is_primitive_root, a, n, phi=phi), o == phi, "is_primitive_root with phi", a, n)
        same(call(Z.is_primitive_root, a, n, phi, list(qs)), o == phi, "is_primitive_root with phi_divisors", a, n)
        if o is not None:
            same(call(Z.multiplicative_order, a, n, phi), o, "multiplicative_order with phi", a, n)
            same(call(Z.multiplicative_order, a, n, phi, list(divs)), o, "multiplicative_order with divisors", a, n)
        if o == phi and least is None:
            least = a
    if n == 2:
        least = 1
    variants = [{}, {"n_factorization": list(f)}, {"phi": phi}, {"phi": phi, "phi_divisors": list(qs)}]
    for kw in variants:
        if has_primitive_root(f):
            same(call(Z.primitive_root, n, **kw), least, "primitive_root", n, kw)
        else:
            must_raise(ValueError, Z.primitive_root, n, **kw)
    return len(f) > 1 or f[0][1] > 1


@law("C15", Each(lambda tier: range(-5, 2)))
def bad_moduli(n):
    """moduli below 2 are rejected; non-trivial: always"""
    for a in (-2, 1, 3):
        must_raise(ValueError, Z.is_primitive_root, a, n)
    return True


@st.composite
def prime_power_moduli(draw):
    p = draw(st.one_of(st.sampled_from(SMALL_PRIMES[:15]), st.sampled_from(SMALL_PRIMES), st.sampled_from(SPECIAL_PRIMES),
                       st.sampled_from([p for p in big_primes() if p < 1 << 40])))
    e = draw(st.integers(1, 6))
    while e > 1 and p**e > 1 << 60:
        e -= 1
    two = draw(st.sampled_from([0, 0, 1, 2])) if p > 2 else 0
    f = ([(2, two)] if two else []) + [(p, e)]
    return (f, draw(st.integers(-10**6, 10**20)))


@law("C15", prime_power_moduli(), quick=300)
def primitive_root_large(case):
    """moduli p^e, 2p^e, 4p^e up to 2^60; the least generator by the order of its powers; non-trivial: e > 1 or p > 2000"""
    f, a = case
    n = product(f)
    if not has_primitive_root(f):
        must_raise(ValueError, Z.primitive_root, n)
        return False
    phi = phi_of(f)
    if phi == 1:
        raise Reject()
    g = call(Z.primitive_root, n)
    ensure(is_int(g) and 0 < g < n, "primitive_root", n, "gives", g)
    ensure(math.gcd(g, n) == 1, "primitive_root", n, "gives", g, "not a unit")
    same(order_ref(g, n, f), phi, "order of primitive_root", n, g)
    for h in range(1, g):
        if math.gcd(h, n) == 1 and order_ref(h, n, f) == phi:
            ensure(False, "primitive_root", n, "gives", g, "but", h, "is smaller")
    want = math.gcd(a, n) == 1 and order_ref(a, n, f) == phi
    same(call(Z.is_primitive_root, a, n), want, "is_primitive_root", a, n)
    return f[-1][1] > 1 or f[-1][0] > 2000


@law("C15", st.tuples(factored(10**12, max_primes=4), st.integers(-10**15, 10**15)), quick=400)
def order_large(case):
    """a^k = 1 and no proper divisor of k does; non-trivial: gcd(a, n) = 1 and n > 200"""
    f, a = case
    n = product(f)
    if n < 2:
        raise Reject()
    if len(divisors_ref(fac_ref(phi_of(f)) if phi_of(f) > 1 else [])) > 20000:
        raise Reject()
    if math.gcd(a, n) != 1:
        must_raise(ValueError, Z.multiplicative_order, a, n)
        return False
    same(call(Z.multiplicative_order, a, n), order_ref(a, n, f), "multiplicative_order", a, n)
    same(call(Z.multiplicative_order, a, n, phi_of(f)), order_ref(a, n, f), "multiplicative_order with phi", a, n)
    return n > 200


@st.composite
def elements_of_given_order(draw):
    """(factorization, a): a = h^d modulo n for a divisor d of phi(n), so that a is a generator of one prime power but not of the
    next, has an order without some primes, or is next to being a primitive root"""
    shape = draw(st.sampled_from(["power", "power", "twice", "any"]))
    if shape == "any":
        f = draw(factored(10**12, max_primes=4))
    else:
        p = draw(st.one_of(st.sampled_from(SMALL_PRIMES[1:60]), st.sampled_from(SMALL_PRIMES[1:]), st.sampled_from([40487, 1093, 3511, 65537, 40961]),
                           st.sampled_from([p for p in big_primes() if 2 < p < 1 << 20])))
        e = draw(st.sampled_from([1, 2, 2, 2, 3, 4]))
        while e > 1 and p**e > 1 << 62:
            e -= 1
        f = ([(2, 1)] if shape == "twice" else []) + [(p, e)]
    n = product(f)
    if n < 3:
        f, n = [(7, 2)], 49
    qs = [q for (q, _) in fac_ref(phi_of(f))]
    ps = [p for (p, e) in f if e > 1 and p in qs]
    d = 1
    for q in draw(st.lists(st.sampled_from(qs + ps + ps), max_size=3)):
        d *= q
    h = draw(st.one_of(st.integers(2, 12), st.integers(2, 10**9)))
    a = pow(h, d, n)
    if draw(st.booleans()):
        a += n*draw(st.integers(-2, 2))
    return (f, a)


@law("C15", elements_of_given_order(), quick=500)
def elements_of_structured_order(case):
    """powers h^d modulo p^e, 2p^e and other n: order, and whether it is a primitive root, in every calling convention;
    non-trivial: the order is neither phi(n) nor below 3"""
    f, a = case
    n = product(f)
    phi = phi_of(f)
    fp = fac_ref(phi) if phi > 1 else []
    qs = [q for (q, _) in fp]
    if math.gcd(a, n) != 1:
        same(call(Z.is_primitive_root, a, n), False, "is_primitive_root", a, n)
        return False
    o = order_ref(a, n, f)
    for kw in ({}, {"phi": phi}, {"phi": phi, "phi_divisors": list(qs)}, {"phi_divisors": list(reversed(qs))}):
        same(call(Z.is_primitive_root, a, n, **kw), o == phi, "is_primitive_root", a, n, kw)
    divs = divisors_ref(fp)
    if len(divs) < 5000:
        same(call(Z.multiplicative_order, a, n), o, "multiplicative_order", a, n)
        same(call(Z.multiplicative_order, a, n, phi, sorted(divs)), o, "multiplicative_order with divisors", a, n)
    return o != phi and o > 2


@law("C15", Each(lambda tier: [p for p in SMALL_PRIMES if p < (700 if tier == "quick" else 2000)]))
def fibonacci_roots(p):
    """every small prime: exactly the primitive roots with g^2 = g + 1; non-trivial: some exist"""
    f = [(p, 1)]
    want = [g for g in range(1, p) if (g*g - g - 1) % p == 0 and order_ref(g, p, f) == p - 1]
    same(call(Z.fibonacci_primitive_roots, p), want, "fibonacci_primitive_roots", p)
    return bool(want)


@law("C15", Each(lambda tier: [(p, a) for p in SMALL_PRIMES if p < (60 if tier == "quick" else 230) for a in range(1, p)]))
def discrete_log_small(case):
    """every prime p, base a and target b (also unreduced); non-trivial: a is not a primitive root"""
    p, a = case
    table = {}
    v = 1
    for k in range(1, p):
        v = v*a % p
        if v not in table:
            table[v] = k
    for b in range(p):
        for (x, y) in ((a, b), (a + p, b), (a, b + p), (a - p, b - p)):
            if b in table:
                k = call(Z.discrete_log, x, y, p)
                ensure(is_int(k) and k >= 1 and pow(a, k, p) == b % p, "discrete_log", x, y, p, "gives", k)
            else:
                must_raise(ValueError, Z.discrete_log, x, y, p)
    return len(table) < p - 1


@law("C15", st.tuples(st.one_of(st.sampled_from(SMALL_PRIMES), st.sampled_from([p for p in SPECIAL_PRIMES if p < 1 << 31]),
                                st.sampled_from([p for p in big_primes() if p < 1 << 30])),
                      st.integers(2, 1 << 40), st.integers(0, 1 << 40), st.sampled_from([0, 0, 0, 1])), quick=250, shards=2)
def discrete_log_large(case):
    """b = a^e for primes up to 2^31, or an arbitrary target; non-trivial: p > 2000 and the target is a power"""
    p, a, e, mode = case
    if a % p == 0:
        raise Reject()
    b = pow(a, e, p) if mode == 0 else e % p
    if b == 0:
        must_raise(ValueError, Z.discrete_log, a, b, p)
        return False
    f = [(p, 1)]
    if pow(b, order_ref(a, p, f), p) == 1:
        k = call(Z.discrete_log, a, b, p)
        ensure(is_int(k) and k >= 1 and pow(a, k, p) == b, "discrete_log", a, b, p, "gives", k)
        return p > 2000
    must_raise(ValueError, Z.discrete_log, a, b, p)
    return False


# ------------------------------------------------------------------ C16

@law("C16", Each(lambda tier: range(2, 260 if tier == "quick" else 1500)), shards=2)
def sqrts_small(n):
    """every a modulo every n; non-trivial: n is not squarefree or has two odd primes"""
    f = small_factor(n)
    roots = {}
    for x in range(n):
        roots.setdefault(x*x % n, []).append(x)
    for a in range(n):
        want = roots.get(a, [])
        for rep in (a, a - n):
            same(call(Z.sqrts_mod_n, rep, n), want, "sqrts_mod_n", rep, n)
        same(call(Z.sqrts_mod_n, a + 3*n, n, list(f)), want, "sqrts_mod_n with factorization", a + 3*n, n)
        if f == [(n, 1)]:
            for rep in (a, a - n, a + 2*n):
                same(call(Z.sqrts_mod_p, rep, n), want, "sqrts_mod_p", rep, n)
    return len([p for (p, e) in f if p > 2]) > 1 or any(e > 1 for (p, e) in f)


@law("C16", Each(lambda tier: range(-3, 2)))
def sqrts_bad_modulus(p):
    """p < 2 is rejected; non-trivial: always"""
    must_raise(ValueError, Z.sqrts_mod_p, 3, p)
    must_raise(ValueError, Z.linear_congruence, 3, 1, p)
    return True


@law("C16", st.tuples(st.one_of(st.sampled_from(SMALL_PRIMES), st.sampled_from(SPECIAL_PRIMES), st.sampled_from(big_primes())),
                      ints(-10**30, 10**30), st.booleans()), quick=1200)
def sqrts_mod_p_large(case):
    """primes up to 64 bits, squares and arbitrary values; Euler criterion for absence; non-trivial: a square and p = 1 mod 8"""
    p, a, square = case
    if square:
        a = a*a
    got = call(Z.sqrts_mod_p, a, p)
    if p == 2 or a % p == 0:
        want = [a % p]
        same(got, want, "sqrts_mod_p", a, p)
        return False
    if pow(a, (p - 1)//2, p) != 1:
        same(got, [], "sqrts_mod_p", a, p)
        return False
    ensure(len(got) == 2 and got[0] + got[1] == p and 0 < got[0] < got[1] and (got[0]*got[0] - a) % p == 0,
           "sqrts_mod_p", a, p, "gives", got)
    return p % 8 == 1


@st.composite
def moduli_pp(draw, max_primes=4):
    ps = draw(st.lists(st.one_of(st.sampled_from(SMALL_PRIMES[:6]), st.sampled_from(SMALL_PRIMES),
                                 st.sampled_from(SPECIAL_PRIMES[:14])), min_size=1, max_size=max_primes, unique=True))
    f = []
    for p in sorted(ps):
        e = draw(st.integers(1, 7 if p == 2 else 4))
        f.append((p, e))
    return f


@law("C16", st.tuples(moduli_pp(), ints(-10**12, 10**12), st.booleans()), quick=400, shards=2)
def sqrts_mod_n_large(case):
    """the set of square roots modulo p1^e1..pk^ek equals the product of the roots modulo each prime power by an independent
    lifting count; non-trivial: a root exists and an exponent is above 1"""
    f, a, square = case
    if square:
        a = a*a
    n = product(f)
    counts = 1
    for (p, e) in f:
        counts *= count_sqrts(a, p, e)
        if counts > 3000:
            raise Reject()
    for kw in ({}, {"n_factorization": list(f)}):
        got = call(Z.sqrts_mod_n, a, n, **kw)
        for x in got:
            ensure(is_int(x) and 0 <= x < n and (x*x - a) % n == 0, "sqrts_mod_n", a, n, "has", x)
        ensure(all(x < y for (x, y) in zip(got, got[1:])), "sqrts_mod_n not sorted and distinct", a, n, got)
        same(len(got), counts, "number of sqrts_mod_n", a, n)
    return counts > 0 and any(e > 1 for (p, e) in f)


def count_sqrts(a, p, e):
    """Number of x mod p^e with x^2 = a, by the classical case analysis."""
    q = p**e
    a %= q
    if a == 0:
        return p**(e//2)
    v = 0
    while a % p == 0:
        a //= p
        v += 1
    if v % 2:
        return 0
    m = e - v
    if p == 2:
        if m == 1:
            base = 1
        elif m == 2:
            base = 2 if a % 4 == 1 else 0
        else:
            base = 4 if a % 8 == 1 else 0
    else:
        base = 2 if pow(a, (p - 1)//2, p) == 1 else 0
    return base*p**(v//2)


@law("C16", Each(lambda tier: range(2, 60 if tier == "quick" else 200)), shards=2)
def linear_small(n):
    """every a, b modulo every n; non-trivial: always (gcd above 1 occurs)"""
    for a in range(-n, 2*n):
        table = {}
        for x in range(n):
            table.setdefault(a*x % n, []).append(x)
        for b in range(-n, n + 1):
            same(call(Z.linear_congruence, a, b, n), table.get(b % n, []), "linear_congruence", a, b, n)
    return True


@law("C16", st.tuples(ints(-10**30, 10**30), ints(-10**30, 10**30), ints(2, 10**30), st.integers(1, 400), st.booleans()), quick=600)
def linear_large(case):
    """moduli up to 10^33 with common factors up to 400; non-trivial: gcd(a, n) > 1 and solvable"""
    a, b, n, d, solvable = case
    a, n = a*d, n*d
    g = math.gcd(a, n)
    if g > 5000:
        raise Reject()
    if solvable:
        b = b*g
    got = call(Z.linear_congruence, a, b, n)
    if b % g:
        same(got, [], "linear_congruence", a, b, n)
        return False
    same(len(got), g, "number of solutions of linear_congruence", a, b, n)
    for x in got:
        ensure(0 <= x < n and (a*x - b) % n == 0, "linear_congruence", a, b, n, "has", x)
    ensure(all(x < y for (x, y) in zip(got, got[1:])), "linear_congruence is not sorted and distinct", a, b, n)
    return g > 1


@law("C16", st.tuples(st.integers(2, 420), st.one_of(st.integers(1, 6), st.integers(-60, 60), st.integers(-5000, 5000)).filter(lambda a: a != 0),
                      st.one_of(st.integers(-40, 40), st.integers(-10**6, 10**6)), st.one_of(st.integers(-40, 40), st.integers(-10**6, 10**6)),
                      st.booleans()), quick=1500, shards=2)
def quadratic_small(case):
    """complete root search modulo n <= 420; non-trivial: gcd(2a, n) > 1 and a root exists"""
    n, a, b, c, withfac = case
    f = small_factor(n)
    if len(f) and math.gcd(a**20, n) == n and n > 64 and a % n == 0:
        raise Reject()          # the discriminant roots alone are too many
    kw = {"n_factorization": list(f)} if withfac else {}
    want = [x for x in range(n) if (a*x*x + b*x + c) % n == 0]
    same(call(Z.quadratic_congruence, [a, b, c], n, **kw), want, "quadratic_congruence", [a, b, c], n)
    return math.gcd(2*a, n) > 1 and bool(want)


@law("C16", st.tuples(moduli_pp(3), st.integers(1, 10**9), st.integers(0, 10**12), st.integers(0, 10**12)), quick=300)
def quadratic_constructed(case):
    """a(x - r)(x - s) modulo a large modulus coprime to 2a: the roots contain r and s and all are roots;
    their number is the number of square roots of the discriminant; non-trivial: the modulus is not prime"""
    f, a, r, s = case
    f = [(p, e) for (p, e) in f if p > 2 and a % p]
    n = product(f)
    if n < 3:
        raise Reject()
    disc = (r - s)**2*a*a
    cnt = 1
    for (p, e) in f:
        cnt *= count_sqrts(disc, p, e)
    if cnt > 3000:
        raise Reject()
    co = [a, -a*(r + s), a*r*s]
    got = call(Z.quadratic_congruence, co, n)
    for x in got:
        ensure(0 <= x < n and (co[0]*x*x + co[1]*x + co[2]) % n == 0, "quadratic_congruence", co, n, "has", x)
    ensure(all(x < y for (x, y) in zip(got, got[1:])), "quadratic_congruence is not sorted and distinct", co, n)
    ensure(r % n in got and s % n in got, "quadratic_congruence", co, n, "misses a root", r % n, s % n)
    same(len(got), cnt, "number of roots of quadratic_congruence", co, n)
    return len(f) > 1 or f[0][1] > 1


@functools.lru_cache(None)
def powers_by_residue(p, n):
    t = {}
    for x in range(1, p):
        t.setdefault(pow(x, n, p), []).append(x)
    return t


@law("C16", Each(lambda tier: [(p, n) for p in SMALL_PRIMES if p < (80 if tier == "quick" else 300) for n in list(range(1, min(p + 3, 60))) + [2*(p - 1), 720720]]), shards=1)
def roots_of_unity(case):
    """every small prime and exponent: exactly the solutions of x^n = 1 and x^n = -1; non-trivial: gcd(n, p - 1) > 1"""
    p, n = case
    t = powers_by_residue(p, n)
    g = next(g for g in range(1, p) if order_ref(g, p, [(p, 1)]) == p - 1)
    for kw in ({}, {"g": g}):
        same(call(Z.nth_roots_of_unity_mod_p, n, p, **kw), t.get(1, []), "nth_roots_of_unity_mod_p", n, p, kw)
        same(call(Z.nth_roots_of_minus1_mod_p, n, p, **kw), t.get(p - 1, []), "nth_roots_of_minus1_mod_p", n, p, kw)
    return math.gcd(n, p - 1) > 1


@law("C16", st.tuples(st.one_of(st.sampled_from(SPECIAL_PRIMES), st.sampled_from([p for p in big_primes() if p < 1 << 45])),
                      st.integers(1, 1000), st.integers(0, 10**6)), quick=200)
def roots_of_unity_large(case):
    """p up to 2^45, d = gcd(n, p - 1) <= 1000: d distinct roots, all of them roots; non-trivial: d > 2"""
    p, n, k = case
    n = n + k*(p - 1)
    d = math.gcd(n, p - 1)
    if d > 2000:
        raise Reject()
    got = call(Z.nth_roots_of_unity_mod_p, n, p)
    ensure(len(got) == d and all(x < y for (x, y) in zip(got, got[1:])), "nth_roots_of_unity_mod_p", n, p, "gives", got)
    ensure(all(0 < x < p and pow(x, n, p) == 1 for x in got), "nth_roots_of_unity_mod_p", n, p, "gives", got)
    got = call(Z.nth_roots_of_minus1_mod_p, n, p)
    want = d if (p - 1)//d % 2 == 0 else 0
    ensure(len(got) == want and all(x < y for (x, y) in zip(got, got[1:])), "nth_roots_of_minus1_mod_p", n, p, "gives", got)
    ensure(all(0 < x < p and pow(x, n, p) == p - 1 for x in got), "nth_roots_of_minus1_mod_p", n, p, "gives", got)
    return d > 2
