"""C01-C04: gcd/lcm, modular arithmetic and CRT, integer roots and logs, Jacobi symbol."""
import math

from hypothesis import strategies as st

from pbt.core import Each, Reject, call, ensure, law, must_raise, same, is_int
from pbt.gens import SMALL_PRIMES, big_primes, factored, ints, product

from rosemary.number_theory import core as T

BIG = 1 << 400

# ------------------------------------------------------------------ C01


def _common(t):
    g, a, b = t
    return (g*a, g*b)


_pair = st.one_of(
    st.tuples(ints(-10**6, 10**6), ints(-10**6, 10**6)),
    st.tuples(ints(-BIG, BIG), ints(-BIG, BIG)),
    st.tuples(ints(1, 1 << 80), ints(-(1 << 60), 1 << 60), ints(-(1 << 60), 1 << 60)).map(_common),
)


@law("C01", Each(lambda tier: ((x, y) for x in range(-(60 if tier == "quick" else 250), 61 if tier == "quick" else 251)
                               for y in range(-(60 if tier == "quick" else 250), 61 if tier == "quick" else 251))))
def gcd_small(case):
    """every pair of small signed integers; non-trivial: gcd > 1"""
    return _gcd_pair(case)


def _gcd_pair(case):
    x, y = case
    g = math.gcd(x, y)
    same(call(T.gcd, x, y), g, "gcd", case)
    same(call(T.lcm, x, y), abs(x*y)//g if g else 0, "lcm", case)
    r = call(T.ext_gcd, x, y)
    ensure(isinstance(r, tuple) and len(r) == 3 and all(is_int(c) for c in r), "ext_gcd", case, "returned", r)
    a, b, d = r
    same(d, g, "third component of ext_gcd", case)
    same(a*x + b*y, g, "a*x + b*y of ext_gcd", case)
    return g > 1


@law("C01", _pair, quick=6000, shards=2)
def gcd_big(case):
    """pairs up to 400 bits, many with a large common factor; non-trivial: gcd > 1 and neither argument 0"""
    _gcd_pair(case)
    return case[0] and case[1] and math.gcd(*case) > 1


@law("C01", st.lists(st.one_of(ints(-10**4, 10**4), ints(-(1 << 90), 1 << 90), st.sampled_from([0, 6, 12, -12, 30, 60, 2310])),
                     min_size=1, max_size=9), quick=4000)
def gcd_lcm_lists(case):
    """lists of 1..9 signed integers; non-trivial: at least 3 elements and no zero"""
    before = list(case)
    same(call(T.gcd_list, case), math.gcd(*case), "gcd_list", case)
    same(call(T.lcm_list, case), math.lcm(*case), "lcm_list", case)
    same(case, before, "argument list changed")
    return len(case) >= 3 and 0 not in case


@law("C01", st.tuples(st.sampled_from(SMALL_PRIMES[:6] + [101, 10**9 + 7, (1 << 89) - 1]), st.integers(1, 12),
                      st.lists(st.integers(0, 60), min_size=1, max_size=6)), quick=1500)
def gcd_lists_scaled(case):
    """metamorphic: scaling a list by k scales its gcd and lcm by k; non-trivial: nonzero list"""
    p, e, L = case
    k = p**e
    same(call(T.gcd_list, [k*x for x in L]), k*math.gcd(*L), "gcd_list of a scaled list", L, k)
    same(call(T.lcm_list, [k*x for x in L]), k*math.lcm(*L), "lcm_list of a scaled list", L, k)
    return any(L)


# ------------------------------------------------------------------ C02

@law("C02", Each(lambda tier: ((a, k, m) for m in range(1, 18 if tier == "quick" else 40) for a in range(0, 2*m + 2) for k in range(0, 14))))
def power_mod_small(case):
    """every small (a, k, m); non-trivial: m > 1 and k > 0"""
    a, k, m = case
    same(call(T.power_mod, a, k, m), pow(a, k, m), "power_mod", case)
    return m > 1 and k > 0


@law("C02", st.tuples(ints(0, 1 << 200), ints(0, 1 << 160), ints(1, 1 << 200)), quick=4000)
def power_mod_big(case):
    """bases, exponents and moduli up to 200 bits; non-trivial: the result is neither 0 nor 1"""
    a, k, m = case
    r = call(T.power_mod, a, k, m)
    same(r, pow(a, k, m), "power_mod", case)
    return r not in (0, 1)


@law("C02", st.one_of(st.tuples(st.integers(-9, -1), st.integers(0, 9), st.integers(1, 9)),
                      st.tuples(st.integers(0, 9), st.integers(-9, -1), st.integers(1, 9)),
                      st.tuples(st.integers(0, 9), st.integers(0, 9), st.integers(-9, 0))), quick=300)
def power_mod_invalid(case):
    """arguments outside the documented domain raise ValueError; all non-trivial"""
    must_raise(ValueError, T.power_mod, *case)
    return True


@law("C02", Each(lambda tier: ((a, m) for m in range(-2, 70 if tier == "quick" else 300) for a in range(1, 3*max(m, 1) + 2))))
def inverse_mod_small(case):
    """every small (a, m): inverse or ValueError; non-trivial: invertible"""
    return _inverse(case)


def _inverse(case):
    a, m = case
    if m < 2 or math.gcd(a, m) != 1:
        must_raise(ValueError, T.inverse_mod, a, m)
        return False
    r = call(T.inverse_mod, a, m)
    ensure(is_int(r) and (r*a - 1) % m == 0, "inverse_mod", case, "returned", r)
    same(r, pow(a, -1, m), "inverse_mod", case)
    return True


@law("C02", st.tuples(ints(1, 1 << 300), ints(2, 1 << 300)), quick=4000)
def inverse_mod_big(case):
    """up to 300 bits; non-trivial: invertible"""
    return _inverse(case)


@st.composite
def _systems(draw, lo=2):
    """Pairwise coprime moduli, built by handing distinct primes to distinct moduli."""
    k = draw(st.integers(1, 7))
    pool = draw(st.permutations(SMALL_PRIMES[:12] + [10007, 65537, (1 << 61) - 1]))
    mods = []
    i = 0
    for _ in range(k):
        m = 1
        for _ in range(draw(st.integers(0 if lo == 1 else 1, 2))):
            m *= pool[i]**draw(st.integers(1, 4))
            i += 1
        mods.append(m)
    res = [draw(st.one_of(st.integers(0, m - 1), st.integers(-3*m, 3*m))) for m in mods]
    return list(zip(res, mods))


def _crt_oracle(system):
    M = 1
    x = 0
    for (r, m) in system:
        t = ((r - x)*pow(M, -1, m)) % m if m > 1 else 0
        x += M*t
        M *= m
    return x % M, M


@law("C02", _systems(lo=1), quick=3000)
def crt_solution(case):
    """coprime systems with any residues; non-trivial: at least 2 congruences"""
    x, M = _crt_oracle(case)
    for (r, m) in case:
        assert (x - r) % m == 0
    same(call(T.chinese, list(case)), x, "chinese", case)
    return len(case) >= 2


@law("C02", st.tuples(_systems(), st.lists(st.integers(-10**6, 10**6), min_size=7, max_size=7)), quick=2500)
def crt_preconditioned(case):
    """one preconditioning reused for two residue vectors, against chinese and the oracle; non-trivial: >= 2 moduli"""
    system, other = case
    mods = [m for (_, m) in system]
    data = call(T.crt_preconditioning_data, list(mods))
    for sysm in (system, list(zip(other, mods)), system):
        x, M = _crt_oracle(sysm)
        same(call(T.chinese_preconditioned, list(sysm), data), x, "chinese_preconditioned", sysm)
        same(call(T.chinese, list(sysm)), x, "chinese", sysm)
    return len(system) >= 2


@law("C02", st.tuples(_systems(), st.lists(st.tuples(st.permutations(range(7)), st.integers(1, 7), st.integers(-10**4, 10**4)), min_size=1, max_size=4)), quick=800)
def crt_reordered(case):
    """the same moduli preconditioned again in other orders and subsets, each set of data used for its own order after the others
    were computed; non-trivial: >= 2 moduli"""
    system, orders = case
    k = len(system)
    systems = [list(system)]
    for (perm, size, shift) in orders:
        systems.append([(system[i][0] + shift, system[i][1]) for i in perm if i < k][:size])
    made = [call(T.crt_preconditioning_data, [m for (_, m) in s]) for s in systems]
    for (s, data) in list(zip(systems, made)) + list(zip(systems, made))[::-1]:
        x, M = _crt_oracle(s)
        same(call(T.chinese_preconditioned, list(s), data), x, "chinese_preconditioned", s, "among", systems)
        same(call(T.chinese, list(s)), x, "chinese", s)
    return k >= 2


@law("C02", st.tuples(_systems(), st.integers(2, 60), st.integers(0, 6), st.integers(0, 6), st.integers(0, 50)), quick=800)
def crt_not_coprime(case):
    """two moduli sharing a factor are rejected; all non-trivial"""
    system, g, i, j, r = case
    system = list(system)
    a = (system[i % len(system)][0], system[i % len(system)][1]*g)
    system[i % len(system)] = a
    system.insert(1 + j % len(system), (r, g))
    must_raise(ValueError, T.chinese, system)
    return True


# ------------------------------------------------------------------ C03

@law("C03", Each(lambda tier: iter(range(0, 20000 if tier == "quick" else 200000))))
def sqrt_small(case):
    """every n below 20000; non-trivial: n within 1 of a square"""
    return _sqrt(case)


def _sqrt(n):
    r = call(T.integer_sqrt, n)
    same(r, math.isqrt(n), "integer_sqrt", n)
    ensure(is_int(r), "integer_sqrt", n, "returned a non-integer", r)
    s = math.isqrt(n)
    return n - s*s <= 1 or (s + 1)**2 - n <= 1


_root = st.one_of(ints(0, 1 << 32), ints(1 << 20, 1 << 40), ints(0, 1 << 600))


@law("C03", st.tuples(_root, st.integers(-3, 3)).map(lambda t: max(0, t[0]**2 + t[1])), quick=6000)
def sqrt_near_squares(case):
    """r^2 + d for roots of every size up to 600 bits, |d| <= 3; non-trivial: n within 1 of a square"""
    return _sqrt(case)


@law("C03", ints(0, 1 << 700), quick=3000)
def sqrt_any(case):
    """any n up to 700 bits; non-trivial: n > 3"""
    _sqrt(case)
    return case > 3


def _inv_root(n, m):
    lo, hi = 0, 1 << (m.bit_length()//n + 1)
    while hi - lo > 1:
        mid = (lo + hi)//2
        if mid**n <= m:
            lo = mid
        else:
            hi = mid
    return lo


@law("C03", Each(lambda tier: ((n, m) for n in range(1, 14) for m in range(0, 1500 if tier == "quick" else 20000))))
def nth_root_small(case):
    """every root degree below 14 of every m below 1500; non-trivial: root >= 2"""
    return _nth(case)


def _nth(case):
    n, m = case
    want = m if n == 1 else _inv_root(n, m)
    r = call(T.integer_nth_root, n, m)
    same(r, want, "integer_nth_root", case)
    return want >= 2


@law("C03", st.tuples(st.one_of(st.integers(1, 9), st.integers(1, 70)), ints(0, 1 << 90), st.integers(-3, 3), st.integers(20, 900)).map(
    lambda t: (t[0], max(0, (t[1] % (1 << max(1, t[3]//t[0])))**t[0] + t[2]))), quick=5000)
def nth_root_near_powers(case):
    """r^n + d with |d| <= 3 and r^n up to about 900 bits; non-trivial: root >= 2 and degree >= 3"""
    return _nth(case) and case[0] >= 3


@law("C03", st.tuples(st.integers(1, 40), ints(0, 1 << 500)), quick=3000)
def nth_root_any(case):
    """any radicand up to 500 bits; non-trivial: root >= 2 and degree >= 3"""
    return _nth(case) and case[0] >= 3


@law("C03", Each(lambda tier: ((b, n) for b in range(2, 40) for n in range(1, 1200 if tier == "quick" else 20000))))
def log_small(case):
    """every base below 40 and n below 1200; non-trivial: n >= b^2"""
    return _log(case)


def _log(case):
    b, n = case
    k = call(T.integer_log, b, n)
    ensure(is_int(k) and k >= 0 and b**k <= n < b**(k + 1), "integer_log", case, "returned", k)
    return n >= b*b


@law("C03", st.one_of(st.tuples(ints(2, 1 << 40), ints(1, 1 << 400)),
                      st.tuples(ints(2, 1 << 40), st.integers(0, 80), st.integers(-2, 2)).map(
                          lambda t: (t[0], max(1, t[0]**t[1] + t[2])))), quick=5000)
def log_near_powers(case):
    """b^k + d; non-trivial: n >= b^2"""
    return _log(case)


@law("C03", ints(-(1 << 400), 1 << 400), quick=2000)
def bits(case):
    """signed integers up to 400 bits; non-trivial: more than one set bit"""
    want = bin(abs(case)).count("1")
    same(call(T.bit_count, case), want, "bit_count", case)
    return want > 1


def _val(p, n):
    k = 0
    while n % p == 0:
        n //= p
        k += 1
    return k


@law("C03", Each(lambda tier: ((p, n) for p in range(2, 30) for n in range(1, 900 if tier == "quick" else 5000))))
def valuation_small(case):
    """every p below 30 and n below 900; non-trivial: p divides n"""
    want = _val(*case)
    same(call(T.valuation, *case), want, "valuation", case)
    return want > 0


@law("C03", st.tuples(st.one_of(st.sampled_from(SMALL_PRIMES[:20]), ints(2, 1 << 40)), st.one_of(st.integers(0, 12), st.integers(0, 90)),
                      ints(1, 1 << 80), st.booleans()), quick=4000)
def valuation_big(case):
    """n = +-p^k * c; non-trivial: k > 0"""
    p, k, c, neg = case
    n = p**k*c*(-1 if neg else 1)
    same(call(T.valuation, p, n), _val(p, n), "valuation", (p, n))
    return k > 0


@law("C03", st.one_of(st.tuples(st.just("sqrt"), st.integers(-10**9, -1), st.just(0)),
                      st.tuples(st.just("root"), st.integers(-5, 0), st.integers(0, 50)),
                      st.tuples(st.just("root"), st.integers(1, 9), st.integers(-50, -1)),
                      st.tuples(st.just("log"), st.integers(-5, 1), st.integers(1, 50)),
                      st.tuples(st.just("log"), st.integers(2, 9), st.integers(-50, 0))), quick=300)
def roots_logs_invalid(case):
    """arguments outside the documented domain raise ValueError; all non-trivial"""
    what, a, b = case
    if what == "sqrt":
        must_raise(ValueError, T.integer_sqrt, a)
    elif what == "root":
        must_raise(ValueError, T.integer_nth_root, a, b)
    else:
        must_raise(ValueError, T.integer_log, a, b)
    return True


# ------------------------------------------------------------------ C04

@law("C04", Each(lambda tier: ((a, m) for m in range(1, 260 if tier == "quick" else 1000, 2) for a in range(0, m + 3))), shards=2)
def jacobi_by_definition(case):
    """every odd m < 260 and a in [0, m + 2], from the product of Legendre symbols (Euler's criterion); non-trivial: value -1"""
    a, m = case
    want = 1
    n = m
    p = 3
    while n > 1:
        while n % p == 0:
            n //= p
            e = pow(a, (p - 1)//2, p)
            want *= 0 if e == 0 else (1 if e == 1 else -1)
        p += 2
    r = call(T.jacobi_symbol, a, m)
    same(r, want, "jacobi_symbol", case)
    return want == -1


@law("C04", st.tuples(ints(0, 1 << 150), st.one_of(factored(1 << 150, 6, big=True))), quick=3000)
def jacobi_from_factorization(case):
    """(a|m) for m built from known odd primes; non-trivial: at least two prime powers and value != 0"""
    a, fac = case
    fac = [(p, e) for (p, e) in fac if p != 2]
    m = product(fac)
    want = 1
    for (p, e) in fac:
        r = pow(a, (p - 1)//2, p)
        want *= (0 if r == 0 else (1 if r == 1 else -1))**e
    same(call(T.jacobi_symbol, a, m), want, "jacobi_symbol", (a, m))
    return len(fac) >= 2 and want != 0


@law("C04", st.tuples(ints(0, 1 << 200), ints(0, 1 << 200), ints(0, 1 << 200), ints(0, 1 << 200)).map(
    lambda t: (t[0], t[1], 2*t[2] + 1, 2*t[3] + 1)), quick=2500)
def jacobi_laws(case):
    """multiplicative in both arguments, periodic in a, reciprocity and the two supplements; non-trivial: value != 0"""
    a, b, m, n = case
    J = T.jacobi_symbol
    ja, jb = call(J, a, m), call(J, b, m)
    same(call(J, a*b, m), ja*jb, "(ab|m) against (a|m)(b|m)", case)
    same(call(J, a + 5*m, m), ja, "(a + 5m|m) against (a|m)", case)
    same(call(J, a, m*n), ja*call(J, a, n), "(a|mn) against (a|m)(a|n)", case)
    same(call(J, m - 1, m), 1 if m == 1 or m % 4 == 1 else -1, "(-1|m)", m)
    same(call(J, 2, m), 1 if m % 8 in (1, 7) else -1, "(2|m)", m)
    if math.gcd(m, n) == 1:
        same(call(J, m, n)*call(J, n, m), -1 if m % 4 == 3 and n % 4 == 3 else 1, "reciprocity", (m, n))
    return ja*jb != 0


@law("C04", st.tuples(ints(0, 10**6), ints(1, 10**6)), quick=300)
def jacobi_even_modulus(case):
    """an even modulus raises ValueError; all non-trivial"""
    must_raise(ValueError, T.jacobi_symbol, case[0], 2*case[1])
    return True
