"""Laws at composites that pass tests for primes (pbt.special): where a function of an integer takes a short way for primes, these are
the inputs at which the way is wrong."""
import math

from hypothesis import strategies as st
from sympy import isprime as sym_isprime, nextprime as sym_nextprime

from pbt import special
from pbt.core import Each, call, call_list, ensure, law, must_raise, same

from rosemary.algebra.polynomials.polynomials import PolyQQ, PolyZZ, Polynomial
from rosemary.number_theory import classification as C
from rosemary.number_theory import core as T
from rosemary.number_theory import zn_arithmetic as Z
from rosemary.number_theory.arithmetic_functions import functions as F
from rosemary.number_theory.arithmetic_functions import sieves as SV
from rosemary.number_theory.factorization import algorithms as A
from rosemary.number_theory.factorization import factorization as FA
from rosemary.number_theory.primes import primality as PR
from rosemary.number_theory.primes import sieves as PS


def below(limit):
    return [f for f in special.ALL if math.prod(f) < limit]


def some(limit):
    """A special composite, mostly alone, or times one to three small primes, or times another special composite."""
    alone = st.sampled_from(below(limit))
    more = st.tuples(st.sampled_from(below(math.isqrt(limit))), st.one_of(
        st.sampled_from(below(math.isqrt(limit))), st.lists(st.sampled_from([2, 2, 3, 3, 5, 7, 11, 13]), min_size=1, max_size=3))).map(lambda p: tuple(p[0]) + tuple(p[1]))
    return st.one_of(alone, alone, more).map(lambda f: special.factored(list(f)))


def value(fac):
    return math.prod(p**e for (p, e) in fac)


@law("C04", st.tuples(some(10**45).map(lambda f: [(p, e) for (p, e) in f if p != 2]), st.one_of(st.integers(0, 60), st.integers(-10**50, 10**50)), st.booleans()), quick=900)
def jacobi_of_pseudoprime_moduli(case):
    """moduli that pass Fermat's test to the base 2, from the product of Legendre symbols; non-trivial: value != 0"""
    fac, a, square = case
    m = value(fac)
    a = a*a % m if square else a
    want = 1
    for (p, e) in fac:
        r = pow(a, (p - 1)//2, p)
        want *= (0 if r == 0 else (1 if r == 1 else -1))**e
    same(call(T.jacobi_symbol, a, m), want, "jacobi_symbol", (a, m))
    return want != 0


@law("C05", Each(lambda tier: special.ALL))
def primality_of_pseudoprimes(f):
    """composites that pass Fermat's test to the base 2, and what follows them; non-trivial: always"""
    n = math.prod(f)
    same(call(PR.is_probable_prime, n), False, "is_probable_prime", n)
    same(call(PR.miller_rabin_deterministic, n), False, "miller_rabin_deterministic", n)
    same(call(PR.is_prime, n), False, "is_prime", n) if n < 10**13 else None
    want = sym_nextprime(n - 1)
    if want < 10**12:
        same(call(PR.next_prime, n - 1), want, "next_prime", n - 1)
    same(call(PR.next_probable_prime, n - 1), want, "next_probable_prime", n - 1)
    return True


@law("C06", Each(lambda tier: below(10**9)))
def ranges_over_pseudoprimes(f):
    """prime_range around composites that pass Fermat's test to the base 2; non-trivial: always"""
    n = math.prod(f)
    same(call_list(PS.prime_range, n - 10, n + 11), [k for k in range(n - 10, n + 11) if sym_isprime(k)], "prime_range", (n - 10, n + 11))
    same(call_list(PS.prime_range, n, n + 1), [], "prime_range", (n, n + 1))
    return True


@law("C08", some(10**14), quick=250)
def factors_of_pseudoprimes(fac):
    """composites that pass Fermat's test to the base 2, with small factors, and products of two of them; non-trivial: beyond a million"""
    n = value(fac)
    same([tuple(x) for x in call(FA.factor, n)], fac, "factor", n)
    same([tuple(x) for x in call(FA.factor, n, skip_power_detection=True)], fac, "factor without power detection", n)
    same([tuple(x) for x in call(FA.factor, n*n)], [(p, 2*e) for (p, e) in fac], "factor", n*n)
    same(call(FA.factor_back, fac), n, "factor_back", fac)
    return n > 10**6


@law("C09", Each(lambda tier: below(10**12)))
def splitting_pseudoprimes(f):
    """the splitting methods at composites that pass Fermat's test to the base 2; non-trivial: always"""
    n = math.prod(f)
    for fn in (A.trial_division, A.lehman):
        d = call(fn, n) if n < 10**10 or fn is A.lehman else None
        if d is None:
            continue
        d = d[0] if isinstance(d, tuple) else d
        ensure(1 < d < n and n % d == 0, fn.__name__, n, "gives", d)
    for fn in (A.pollard_rho, A.pollard_rho_brent):
        d = call(fn, n)
        ensure(d is None or 1 < d < n and n % d == 0 or d in (1, n), fn.__name__, n, "gives", d)
    return True


@law("C10", some(10**14), quick=150)
def divisors_of_pseudoprimes(fac):
    """composites that pass Fermat's test to the base 2, and multiples; non-trivial: at least eight divisors"""
    n = value(fac)
    want = [1]
    for (p, e) in fac:
        want = [d*p**i for d in want for i in range(e + 1)]
    want.sort()
    same(call(FA.divisors, n), want, "divisors", n)
    same(sorted(call_list(FA.xdivisors, n)), want, "xdivisors", n)
    same(call(FA.prime_divisors, n), [p for (p, e) in fac], "prime_divisors", n)
    same(call(FA.unitary_divisors, n), [d for d in want if math.gcd(d, n//d) == 1], "unitary_divisors", n)
    return len(want) >= 8


@law("C11", some(10**14), quick=250)
def functions_of_pseudoprimes(fac):
    """composites that pass Fermat's test to the base 2, and multiples; non-trivial: beyond a million"""
    n = value(fac)
    same(call(F.euler_phi, n), math.prod((p - 1)*p**(e - 1) for (p, e) in fac), "euler_phi", n)
    same(call(F.moebius_mu, n), 0 if any(e > 1 for (p, e) in fac) else (-1)**len(fac), "moebius_mu", n)
    same(call(F.divisor_tau, n), math.prod(e + 1 for (p, e) in fac), "divisor_tau", n)
    same(call(F.divisor_sigma, n), math.prod((p**(e + 1) - 1)//(p - 1) for (p, e) in fac), "divisor_sigma", n)
    same(call(F.carmichael_lambda, n), math.lcm(*[(2**(e - 2) if e > 2 else 2**(e - 1)) if p == 2 else (p - 1)*p**(e - 1) for (p, e) in fac]), "carmichael_lambda", n)
    return n > 10**6


@law("C12", Each(lambda tier: below(10**9)))
def moebius_range_over_pseudoprimes(f):
    """moebius_range at composites that pass Fermat's test to the base 2; non-trivial: always"""
    n = math.prod(f)
    got = call_list(SV.moebius_range, n, n + 2)
    same(got[0], (n, 0 if len(set(f)) < len(f) else (-1)**len(f)), "moebius_range", (n, n + 2))
    return True


@law("C15", st.tuples(some(10**9), st.integers(2, 60)), quick=250)
def orders_modulo_pseudoprimes(case):
    """orders modulo composites that pass Fermat's test to the base 2, and that they have no primitive root; non-trivial: the order is a proper divisor of lambda"""
    fac, a = case
    n = value(fac)
    if math.gcd(a, n) > 1:
        must_raise(ValueError, Z.multiplicative_order, a, n)
        same(call(Z.is_primitive_root, a, n), False, "is_primitive_root", (a, n))
        return False
    lam = math.lcm(*[(2**(e - 2) if e > 2 else 2**(e - 1)) if p == 2 else (p - 1)*p**(e - 1) for (p, e) in fac])
    k, order = lam, lam
    for q in range(2, 10**6):
        if q*q > k:
            break
        while k % q == 0:
            k //= q
            if pow(a, order//q, n) == 1:
                order //= q
    if k > 1 and pow(a, order//k, n) == 1:
        order //= k
    same(call(Z.multiplicative_order, a, n), order, "multiplicative_order", (a, n))
    phi = math.prod((p - 1)*p**(e - 1) for (p, e) in fac)
    same(call(Z.is_primitive_root, a, n), order == phi, "is_primitive_root", (a, n))
    if lam != phi:
        must_raise(ValueError, Z.primitive_root, n)
    return order < lam


@law("C16", st.tuples(some(10**12), st.integers(0, 10**9), st.booleans(), st.booleans()), quick=250)
def square_roots_modulo_pseudoprimes(case):
    """square roots modulo composites that pass Fermat's test to the base 2; non-trivial: there are some"""
    fac, a, square, given = case
    fac = [(p, e if p > 3 else min(e, 3)) for (p, e) in fac if e < 3 or p < 50]
    n = value(fac)
    if n == 1:
        return False
    a = a*a % n if square else a % n
    got = call(Z.sqrts_mod_n, a, n, fac) if given else call(Z.sqrts_mod_n, a, n)
    for x in got:
        ensure(0 <= x < n and (x*x - a) % n == 0, "sqrts_mod_n", (a, n), "gives", x)
    same(got, sorted(set(got)), "sqrts_mod_n", (a, n), "in order and without repetition")
    if all(a % p for (p, e) in fac) and all(e == 1 or p > 2 for (p, e) in fac):
        solvable = all(p == 2 or pow(a, (p - 1)//2, p) == 1 for (p, e) in fac)
        same(len(got), 2**sum(p > 2 for (p, e) in fac) if solvable else 0, "number of square roots", (a, n))
    elif square:
        ensure(got, "no square root of a square", (a, n))
    return bool(got)


@law("C17", some(10**14), quick=200)
def classes_of_pseudoprimes(fac):
    """composites that pass Fermat's test to the base 2, their squares and cubes; non-trivial: beyond a million"""
    n = value(fac)
    same(call(C.is_squarefree, n), all(e == 1 for (p, e) in fac), "is_squarefree", n)
    d = math.gcd(*[e for (p, e) in fac])
    for k in (1, 2, 3, 5):
        want = (math.prod(p**(e//d) for (p, e) in fac), d*k)
        same(call(C.is_power, n**k), False if d*k == 1 else want, "is_power", n**k)
        same(call(C.is_square, n**k), math.prod(p**(e*k//2) for (p, e) in fac) if d*k % 2 == 0 else False, "is_square", n**k)
    return n > 10**6


# ------------------------------------------------------------------ C22

signed = st.integers(-9, 9)
few = st.one_of(st.lists(signed, min_size=1, max_size=6), st.tuples(st.integers(0, 4), signed).map(lambda p: [0]*p[0] + [p[1]]))


@law("C22", st.tuples(few, few, st.sampled_from(["x", "y", "t", "z1"]), st.integers(0, 4), signed, st.sampled_from(["Polynomial", "PolyZZ", "PolyQQ"])), quick=900)
def results_keep_the_variable(case):
    """every operation on polynomials in one variable gives a polynomial in this variable; non-trivial: not x, and no constants"""
    a, b, name, k, s, kind = case
    cls = {"Polynomial": Polynomial, "PolyZZ": PolyZZ, "PolyQQ": PolyQQ}[kind]
    p, q = call(cls, a, name), call(cls, b, name)
    done = {"p + q": lambda: p + q, "p - q": lambda: p - q, "p * q": lambda: p*q, "-p": lambda: -p, "p ** k": lambda: p**k, "p + s": lambda: p + s, "s + p": lambda: s + p,
            "p - s": lambda: p - s, "s - p": lambda: s - p, "p * s": lambda: p*s, "s * p": lambda: s*p, "p.power_binary(k)": lambda: p.power_binary(k)}
    for (what, fn) in done.items():
        r = call(fn)
        same(r.variable, name, "variable of", what, "for", case)
        letters = "".join(ch for ch in repr(r) if ch.isalpha())
        ensure(not letters.replace(name.rstrip("1"), ""), "printed", repr(r), "in", name, "for", what, case)
    if any(b):
        for (i, r) in enumerate(call(p.pseudo_quo_rem, q)):
            same(r.variable, name, "variable of part", i, "of pseudo_quo_rem", case)
        product = call(lambda: p*q)
        for (i, r) in enumerate(call(product.quo_rem, q)):
            same(r.variable, name, "variable of part", i, "of quo_rem", case)
    if kind == "PolyZZ" and any(a) and any(b):
        same(call(p.primitive_part).variable, name, "variable of the primitive part", case)
        same(call(p.gcd, q).variable, name, "variable of the gcd", case)
    return name != "x" and any(a[1:]) and any(b[1:])
