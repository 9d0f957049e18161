"""C17-C20: classification, continued fractions, Pell equations, and the miscellany."""
import itertools
import math
from fractions import Fraction

from hypothesis import strategies as st

from pbt.core import Each, Reject, call, ensure, is_int, law, must_raise, same
from pbt.gens import SMALL_PRIMES, factored, ints, product
from pbt.props.nt_factor import divisors_ref, fac_ref, small_factor

from rosemary.number_theory import arithmetic_progressions as AP
from rosemary.number_theory import classification as K
from rosemary.number_theory import continued_fractions as CF
from rosemary.number_theory import misc as M
from rosemary.number_theory.diophantine_equations import pell as P


# ------------------------------------------------------------------ C17

def power_ref(f):
    """(b, k) with k maximal for n = product(f) > 1, else False."""
    d = 0
    for (p, e) in f:
        d = math.gcd(d, e)
    if d < 2:
        return False
    return (product([(p, e//d) for (p, e) in f]), d)


def check_same_type(got, want, *what):
    """False and 0 are different answers."""
    if want is False or got is False:
        ensure(got is want, *what, "gives", got, "expected", want)
    same(got, want, *what)


@law("C17", Each(lambda tier: range(-40, 4000 if tier == "quick" else 70000)), shards=2)
def classify_small(n):
    """every small n, as integer and as factorization; non-trivial: n > 1 is a perfect power or has a square factor"""
    r = math.isqrt(n) if n >= 0 else None
    check_same_type(call(K.is_square, n), r if n >= 0 and r*r == n else False, "is_square", n)
    same(call(K.is_factorial, n), n in (1, 2, 6, 24, 120, 720, 5040, 40320), "is_factorial", n)
    if n < 1:
        must_raise(ValueError, K.is_power, n)
        must_raise(ValueError, K.is_power, n, 3)
        return False
    f = small_factor(n)
    sq = all(e == 1 for (p, e) in f)
    check_same_type(call(K.is_squarefree, n), sq, "is_squarefree", n)
    check_same_type(call(K.is_squarefree, list(f)), sq, "is_squarefree", f)
    check_same_type(call(K.is_square, list(f)), r if r*r == n else False, "is_square", f)
    want = power_ref(f)
    check_same_type(call(K.is_power, n), want, "is_power", n)
    check_same_type(call(K.is_power, list(f)), want, "is_power", f)
    for k in range(1, 14):
        wk = False
        if all(e % k == 0 for (p, e) in f):
            wk = (product([(p, e//k) for (p, e) in f]), k)
        check_same_type(call(K.is_power, n, k), wk, "is_power", n, k)
        check_same_type(call(K.is_power, list(f), k), wk, "is_power", f, k)
    for k in (0, -1):
        must_raise(ValueError, K.is_power, n, k)
    got = call(K.is_power2, n)
    if want is False:
        ensure(got is False, "is_power2", n, "gives", got)
    else:
        ensure(isinstance(got, tuple) and got[1] > 1 and got[0]**got[1] == n, "is_power2", n, "gives", got)
    return n > 1 and not sq


@law("C17", st.tuples(factored(10**60, max_primes=4), st.integers(1, 12), st.integers(-2, 2), st.sampled_from([1, 1, 2, 3])), quick=700, shards=2)
def powers_large(case):
    """n = (p1^e1..pr^er)^k, its neighbours and small multiples, up to hundreds of digits; non-trivial: an exact power, k > 1"""
    f, k, d, mult = case
    f = [(p, e*k) for (p, e) in f]
    n = product(f)
    if n.bit_length() > 900:
        raise Reject()
    if d == 0 and mult == 1:
        want = power_ref(f)
        check_same_type(call(K.is_power, n), want, "is_power", n)
        check_same_type(call(K.is_power, list(f)), want, "is_power", f)
        wk = (product([(p, e//k) for (p, e) in f]), k)
        same(call(K.is_power, n, k), wk, "is_power", n, k)
        same(call(K.is_power, list(f), k), wk, "is_power", f, k)
        check_same_type(call(K.is_squarefree, list(f)), all(e == 1 for (p, e) in f), "is_squarefree", f)
        r = math.isqrt(n)
        check_same_type(call(K.is_square, n), r if r*r == n else False, "is_square", n)
        check_same_type(call(K.is_square, list(f)), r if r*r == n else False, "is_square", f)
        return k > 1 and n > 1
    n = n*mult + d
    if n < 1:
        raise Reject()
    r = math.isqrt(n)
    check_same_type(call(K.is_square, n), r if r*r == n else False, "is_square", n)
    check_same_type(call(K.is_square, n*n), n, "is_square", n*n)
    check_same_type(call(K.is_square, -n), False, "is_square", -n)
    got = call(K.is_power, n)
    # Independent maximal exponent by binary search of integer roots.
    best = False
    for e in range(n.bit_length(), 1, -1):
        lo, hi = 1, 1 << (n.bit_length()//e + 1)
        while lo < hi:
            mid = (lo + hi + 1)//2
            if mid**e <= n:
                lo = mid
            else:
                hi = mid - 1
        if lo > 1 and lo**e == n:
            best = (lo, e)
            break
    check_same_type(got, best, "is_power", n)
    return best is not False


@law("C17", Each(lambda tier: range(0, 60)))
def factorials(k):
    """k! and its neighbours and multiples; non-trivial: k > 3"""
    n = math.factorial(k)
    same(call(K.is_factorial, n), True, "is_factorial", n)
    for m in (n - 1, n + 1, 2*n, n*(k + 2), n//2, -n):
        want = m > 0 and any(math.factorial(j) == m for j in range(0, k + 3))
        same(call(K.is_factorial, m), want, "is_factorial", m)
    return k > 3


@law("C17", st.lists(st.tuples(st.sampled_from(SMALL_PRIMES), st.integers(1, 6)), max_size=4, unique_by=lambda t: t[0]), quick=200)
def negative_factorizations(f):
    """factorizations of negative integers are no squares and no perfect powers; non-trivial: all exponents even"""
    f = [(-1, 1)] + sorted(f)
    check_same_type(call(K.is_square, list(f)), False, "is_square", f)
    must_raise(ValueError, K.is_power, list(f))
    must_raise(ValueError, K.is_power, list(f), 2)
    return all(e % 2 == 0 for (p, e) in f[1:])


# ------------------------------------------------------------------ C18

def floor_surd(p, d, q):
    """floor((p + sqrt(d))/q) exactly, for d not a square."""
    if q < 0:
        # = floor((-p - sqrt(d))/|q|) = -ceil((p + sqrt(d))/|q|)
        return -floor_surd(p, d, -q) - 1
    return (p + math.isqrt(d))//q


def cf_ref(d, p, q, count):
    """The first partial quotients of (p + sqrt(d))/q by exact comparison of rationals with the surd."""
    # x = (A + B*sqrt(d))/C with integers; all operations exact.
    A, B, C = p, 1, q
    out = []
    for _ in range(count):
        # floor of (A + B sqrt d)/C
        s = B*B*d
        if C < 0:
            A, B, C = -A, -B, -C
        r = math.isqrt(s)
        t = A + r if B > 0 else A - r - 1
        a = t//C
        out.append(a)
        # 1/((A - aC + B sqrt d)/C) = C (A' - B sqrt d)/(A'^2 - B^2 d)
        A2 = A - a*C
        N = A2*A2 - B*B*d
        A, B, C = C*A2, -C*B, N
        g = math.gcd(math.gcd(A, B), C)
        A, B, C = A//g, B//g, C//g
    return out


def check_cf(d, p, q, terms=40):
    x = call(CF.QuadraticIrrational, d, p, q) if (p, q) != (0, 1) else call(CF.QuadraticIrrational, d)
    want = cf_ref(d, p, q, terms)
    got = call(lambda: list(itertools.islice(x.partial_quotients(), terms)))
    same(got, want, "partial quotients of ({} + sqrt({}))/{}".format(p, d, q))
    ensure(len(x.fundamental_period) == x.period_length and x.period_length >= 1,
           "period_length", x.period_length, "of", x.fundamental_period)
    # the convergents are those of the partial quotients
    conv = call(lambda: list(itertools.islice(x.convergents(), min(terms, 15))))
    for (i, (a, b)) in enumerate(conv):
        v = Fraction(want[i])
        for t in reversed(want[:i]):
            v = t + 1/v
        ensure(b > 0 or i == 0, "convergent", (a, b))
        ensure(Fraction(a, b) == v and math.gcd(a, b) == 1, "convergent number", i, "of", (d, p, q), "is", (a, b), "expected", v)
    # minimality of the period
    per = x.fundamental_period
    L = len(per)
    for t in range(1, L):
        if L % t == 0:
            ensure(per != per[:t]*(L//t), "fundamental period", per, "is a repetition")
    return x


@law("C18", Each(lambda tier: range(2, 400 if tier == "quick" else 6000)))
def sqrt_expansions(d):
    """every small d: [a0; palindrome, 2 a0], or ValueError for squares; non-trivial: period above 2"""
    r = math.isqrt(d)
    if r*r == d:
        must_raise(ValueError, CF.QuadraticIrrational, d)
        must_raise(ValueError, CF.QuadraticIrrational, d, 1, 2)
        return False
    x = check_cf(d, 0, 1)
    per = x.fundamental_period
    same(list(x.pre_period), [r], "pre_period of sqrt", d)
    same(per[-1], 2*r, "last term of the period of sqrt", d)
    same(per[:-1], per[:-1][::-1], "palindrome in the period of sqrt", d)
    same(repr(x), "Continued Fraction Expansion of sqrt({})".format(d), "repr")
    return x.period_length > 2


@law("C18", st.tuples(st.one_of(st.integers(2, 50), st.integers(2, 3000)), st.one_of(st.integers(-12, 12), st.integers(-400, 400)),
                      st.one_of(st.integers(-9, 9), st.integers(-60, 60)).filter(lambda q: q != 0)), quick=1500, shards=2)
def surd_expansions(case):
    """(p + sqrt(d))/q against exact surd arithmetic; non-trivial: q < 0, or q does not divide d - p^2"""
    d, p, q = case
    if math.isqrt(d)**2 == d:
        must_raise(ValueError, CF.QuadraticIrrational, d, p, q)
        return False
    x = check_cf(d, p, q)
    # the pre-period is minimal: the last term of it differs from the last term of the period
    if (p, q) != (0, 1) and x.pre_period:
        ensure(x.pre_period[-1] != x.fundamental_period[-1], "pre-period", x.pre_period, "not minimal for", case)
    text = repr(x)
    head = "Continued Fraction Expansion of "
    if p == 0:
        want = "sqrt({})".format(d) if q == 1 else "sqrt({})/{}".format(d, q)
    elif q == 1:
        want = "{} + sqrt({})".format(p, d)
    else:
        want = "({} + sqrt({}))/{}".format(p, d, q)
    same(text, head + want, "repr of", case)
    return q < 0 or (d - p*p) % q != 0


@law("C18", ints(10**6, 10**30), quick=150)
def sqrt_large(d):
    """d = k^2 + r with small period (r | 2k), up to 30 digits; non-trivial: always"""
    k = math.isqrt(d)
    for r in (1, 2, k, 2*k):
        n = k*k + r
        x = check_cf(n, 0, 1, terms=12)
        ensure(x.period_length <= 2, "period of sqrt", n, "is", x.fundamental_period)
    return True


# ------------------------------------------------------------------ C19

NONSQUARES = [d for d in range(2, 600) if math.isqrt(d)**2 != d]


def pell_ref(D):
    """Least (x, y) of x^2 - D y^2 = 1 by the cyclic chakravala method (no continued fraction)."""
    m = math.isqrt(D)
    if (m + 1)**2 - D < D - m*m:
        m += 1
    a, b, k = m, 1, m*m - D
    while k != 1:
        # choose m with a + b m = 0 mod |k| minimizing |m^2 - D|
        K_ = abs(k)
        inv = pow(b, -1, K_) if K_ > 1 else 0
        m0 = (-a*inv) % K_
        r = math.isqrt(D)
        t = (r - m0)//K_
        cands = [m0 + j*K_ for j in (t - 1, t, t + 1, t + 2) if m0 + j*K_ > 0]
        m = min(cands, key=lambda v: (abs(v*v - D), v))
        a, b, k = (a*m + D*b)//K_, (a + b*m)//K_, (m*m - D)//k
        a, b = abs(a), abs(b)
    return a, b


@law("C19", Each(lambda tier: NONSQUARES if tier == "quick" else [d for d in range(2, 6000) if math.isqrt(d)**2 != d]))
def pell_fundamental(D):
    """every small D against the chakravala method; the -1 equation by descent; non-trivial: x > 1000"""
    u, v = pell_ref(D)
    same(call(P.pell_fundamental_solution, D), (u, v), "pell_fundamental_solution", D)
    same(call(P.pell_fundamental_solution, D, 1), (u, v), "pell_fundamental_solution", D, 1)
    # x^2 - D y^2 = -1 is solvable iff (u, v) is a square: u = 2x^2 + 1, v = 2xy
    x = math.isqrt((u - 1)//2)
    neg = None
    if u % 2 == 1 and 2*x*x + 1 == u and x and v % (2*x) == 0 and x*x - D*(v//(2*x))**2 == -1:
        neg = (x, v//(2*x))
    E1 = call(P.PellEquation, D, 1)
    same(call(E1.resolvent_solution), (u, v), "PellEquation(D, 1).resolvent_solution()", D)
    E2 = call(P.PellEquation, D, -1)
    if neg is None:
        must_raise(ValueError, P.pell_fundamental_solution, D, -1)
        must_raise(ValueError, E2.resolvent_solution)
    else:
        same(call(P.pell_fundamental_solution, D, -1), neg, "pell_fundamental_solution", D, -1)
        same(call(E2.resolvent_solution), neg, "PellEquation(D, -1).resolvent_solution()", D)
    for n in (0, 2, -2):
        must_raise(ValueError, P.pell_fundamental_solution, D, n)
    same(repr(E2), "Pell Equation x^2 - {}*y^2 = -1".format(D), "repr")
    return u > 1000


@law("C19", Each(lambda tier: [-7, -1, 0] + [k*k for k in range(1, 60)]))
def pell_bad(D):
    """D <= 0 and square D are rejected; non-trivial: always"""
    for n in (1, -1):
        must_raise(ValueError, P.pell_fundamental_solution, D, n)
        must_raise(ValueError, P.PellEquation, D, n)
    must_raise(ValueError, lambda: next(P.pell_small(D, 1)))
    must_raise(ValueError, P.pell_minimal_positive_solutions, D, 5)
    return True


def positive_solutions(D, N, Y):
    out = []
    for y in range(1, Y + 1):
        t = D*y*y + N
        if t > 0:
            x = math.isqrt(t)
            if x*x == t:
                out.append((x, y))
    return out


def minimal_ref(D, N, u, v):
    Y = int(math.sqrt(abs(N))*(u/math.sqrt(D) + v)) + 5
    reps = []
    for (x, y) in sorted(positive_solutions(D, N, Y)):
        if not any((x*a - D*y*b) % N == 0 and (x*b - y*a) % N == 0 for (a, b) in reps):
            reps.append((x, y))
    return sorted(reps)


def small_D(limit):
    return [d for d in range(2, 120) if math.isqrt(d)**2 != d and pell_ref(d)[0] <= limit]


@law("C19", st.tuples(st.sampled_from(small_D(2100)), st.one_of(st.integers(-30, 30), st.integers(-200, 200)).filter(lambda n: n != 0),
                      st.sampled_from([1, 1, 1, 2, 3, 4, 5])), quick=450, shards=3)
def pell_classes(case):
    """the least positive solution of every class, by complete search; then the solutions up to a bound;
    non-trivial: more than one class, or a class of (x, 0) or (0, y)"""
    D, N, k = case
    N *= k*k
    u, v = pell_ref(D)
    if math.sqrt(abs(N))*(u/math.sqrt(D) + v) > 120000:
        raise Reject()
    want = minimal_ref(D, N, u, v)
    same(call(P.pell_minimal_positive_solutions, D, N), want, "pell_minimal_positive_solutions", D, N)
    Y = 3000
    all_pos = [(x, y) for (x, y) in positive_solutions(D, N, Y) if x <= Y and y <= Y]
    got = call(lambda: list(P.pell_solution_generator(D, N, Y)))
    same(sorted(got), sorted(all_pos), "pell_solution_generator", D, N, Y)
    # bounds at the coordinates of solutions, and next to them: both coordinates are within the bound
    for (x, y) in all_pos[:4] + all_pos[-2:]:
        for B in {x, y, x - 1, y - 1, (x + y)//2}:
            got = call(lambda: list(P.pell_solution_generator(D, N, B)))
            same(sorted(got), sorted(s for s in all_pos if max(s) <= B), "pell_solution_generator", D, N, B)
    return len(want) > 1 or (want and (N == math.isqrt(abs(N))**2 or (-N) % D == 0))


@law("C19", st.tuples(st.sampled_from(NONSQUARES[:90]), st.integers(0, 40)), quick=300)
def pell_small_values(case):
    """N = the norm of a convergent, |N| < sqrt(D): exactly the primitive positive solutions, in increasing order; non-trivial: N not 1"""
    D, i = case
    cf = cf_ref(D, 0, 1, i % 12 + 1)
    a0, a1, b0, b1 = 0, 1, 1, 0
    for q in cf:
        a0, a1 = a1, q*a1 + a0
        b0, b1 = b1, q*b1 + b0
    N = a1*a1 - D*b1*b1
    if N*N >= D:
        must_raise(ValueError, lambda: next(P.pell_small(D, N)))
        raise Reject()
    got = call(lambda: list(itertools.islice(P.pell_small(D, N), 3)))
    for (x, y) in got:
        ensure(x > 0 and y > 0 and x*x - D*y*y == N and math.gcd(x, y) == 1, "pell_small", D, N, "has", (x, y))
    want = [s for s in positive_solutions(D, N, 3000) if math.gcd(*s) == 1]
    ensure(got == sorted(got) and len(set(got)) == 3, "pell_small", D, N, "gives", got)
    same(got[:len(want)], want[:3], "first solutions of pell_small", D, N)
    return N != 1


@law("C19", Each(lambda tier: [d for d in NONSQUARES if d < (140 if tier == "quick" else 500)]))
def farey_units(D):
    """the mediant search finds the least solution for N = 1; non-trivial: D > 10"""
    same(call(P.farey, D, 1), pell_ref(D), "farey", D, 1)
    return D > 10


# ------------------------------------------------------------------ C20

@law("C20", Each(lambda tier: range(1, 260 if tier == "quick" else 1300)))
def largest_divisor_small(n):
    """every b <= n for every small n; non-trivial: n has four or more divisors"""
    D = [d for d in range(1, n + 1) if n % d == 0]
    best = 0
    for b in range(1, n + 1):
        if n % b == 0:
            best = b
        same(call(M.largest_divisor, n, b), best, "largest_divisor", n, b)
    return len(D) >= 4


@law("C20", st.tuples(factored(10**16, max_primes=6), st.integers(0, 10**18), st.integers(-2, 2)), quick=500)
def largest_divisor_large(case):
    """n up to 10^16; b near a divisor or arbitrary; non-trivial: b is no divisor and n has 30 or more"""
    f, t, d = case
    n = product(f)
    D = divisors_ref(f)
    if len(D) > 5000:
        raise Reject()
    b = D[t % len(D)] + d if d else t % n + 1
    if not 1 <= b <= n:
        raise Reject()
    want = max(x for x in D if x <= b)
    same(call(M.largest_divisor, n, b), want, "largest_divisor", n, b)
    return n % b != 0 and len(D) >= 30


def tau(n):
    r = 1
    for (p, e) in small_factor(n):
        r *= e + 1
    return r


@law("C20", Each(lambda tier: [0]))
def maximize_divisors_small(_):
    """every B up to 5000 by a running maximum of the divisor function; non-trivial: always"""
    best = 0
    for B in range(1, 5000):
        best = max(best, tau(B))
        (k, n) = call(M.maximize_divisors, B)
        ensure(1 <= n <= B and tau(n) == k and k == best, "maximize_divisors", B, "gives", (k, n), "expected", best)
    return True


@law("C20", ints(1, 10**13), quick=250)
def maximize_divisors_large(B):
    """B up to 10^13 against a search over non-increasing exponent vectors; non-trivial: B > 10^6"""
    best = [1]

    def go(i, lim, n, t):
        best[0] = max(best[0], t)
        p = SMALL_PRIMES[i]
        e = 0
        while e < lim and n*p <= B:
            n *= p
            e += 1
            go(i + 1, e, n, t*(e + 1))
    go(0, 60, 1, 1)
    (k, n) = call(M.maximize_divisors, B)
    ensure(1 <= n <= B, "maximize_divisors", B, "gives", (k, n))
    t = 1
    for (p, e) in fac_ref(n):
        t *= e + 1
    ensure(t == k == best[0], "maximize_divisors", B, "gives", (k, n), "expected", best[0])
    return B > 10**6


@law("C20", Each(lambda tier: range(0, 60 if tier == "quick" else 200)))
def bernoulli(n):
    """B_0..B_n by the Akiyama-Tanigawa triangle; non-trivial: n > 2"""
    A = []
    want = []
    for m in range(n + 1):
        A.append(Fraction(1, m + 1))
        for j in range(m, 0, -1):
            A[j - 1] = j*(A[j - 1] - A[j])
        want.append(A[0])
    if n >= 1:
        want[1] = Fraction(-1, 2)
    same(call(M.bernoulli_list, n), want, "bernoulli_list", n)
    return n > 2


def aps_ref(A):
    S = set(A)
    best, out = 0, set()
    for i in range(len(A)):
        for j in range(i + 1, len(A)):
            d = A[j] - A[i]
            t = [A[i]]
            while t[-1] + d in S:
                t.append(t[-1] + d)
            if len(t) > best:
                best, out = len(t), {tuple(t)}
            elif len(t) == best:
                out.add(tuple(t))
    return sorted(out)


def check_ap(A):
    S = set(A)
    has = any(2*b - a in S for (a, b) in itertools.combinations(A, 2))
    for kw in ({}, {"indices": True}):
        got = call(AP.has_three_term_ap, list(A), **kw)
        if not has:
            ensure(got is False, "has_three_term_ap", A, kw, "gives", got)
        else:
            ensure(isinstance(got, tuple) and len(got) == 3, "has_three_term_ap", A, kw, "gives", got)
            if kw:
                ensure(0 <= got[0] < got[1] < got[2] < len(A), "indices", got)
                got = tuple(A[i] for i in got)
            ensure(all(x in S for x in got) and got[0] < got[1] < got[2] and got[0] + got[2] == 2*got[1],
                   "has_three_term_ap", A, kw, "gives", got)
    if len(A) >= 2:
        want = aps_ref(A)
        got = call(AP.longest_ap, list(A))
        same([tuple(x) for x in got], want, "longest_ap", A)
        return len(want[0]) > 2
    return False


@law("C20", Each(lambda tier: range(0, 1 << (10 if tier == "quick" else 14))))
def ap_subsets(mask):
    """every subset of {1..10}; non-trivial: it has a three term progression"""
    return check_ap([i + 1 for i in range(16) if mask >> i & 1])


@law("C20", st.one_of(st.lists(st.integers(1, 60), min_size=1, max_size=24, unique=True),
                      st.lists(st.integers(1, 2000), min_size=1, max_size=40, unique=True),
                      st.tuples(st.integers(1, 50), st.integers(1, 40), st.integers(2, 12), st.lists(st.integers(1, 600), max_size=20)).map(
                          lambda t: list({t[0] + i*t[1] for i in range(t[2])} | set(t[3])))).map(sorted), quick=700)
def ap_random(A):
    """sorted sets with planted progressions against complete search; non-trivial: a three term progression exists"""
    return check_ap(A)
