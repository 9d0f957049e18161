"""C21-C24: polynomial kernels, Polynomial, Matrix, power series."""
import itertools
import math
from fractions import Fraction

from hypothesis import strategies as st

from pbt.core import Each, Reject, call, ensure, is_int, law, must_raise, reject, same
from pbt.gens import ints

from rosemary.algebra.matrices.matrices import Matrix, MatrixQQ, MatrixZZ
from rosemary.algebra.polynomials import algorithms as PA
from rosemary.algebra.polynomials.polynomials import PolyQQ, PolyZZ, Polynomial
from rosemary.algebra.power_series import power_series as PS


def mul_ref(a, b):
    """Product by evaluation at a power of two that separates the coefficients (Kronecker substitution)."""
    if not a or not b:
        return []
    bound = max(1, max(map(abs, a)))*max(1, max(map(abs, b)))*min(len(a), len(b))
    k = bound.bit_length() + 2
    A = sum(c << (k*i) for (i, c) in enumerate(a))
    B = sum(c << (k*i) for (i, c) in enumerate(b))
    C = A*B
    out = []
    half = 1 << (k - 1)
    mask = (1 << k) - 1
    for _ in range(len(a) + len(b) - 1):
        c = C & mask
        if c >= half:
            c -= 1 << k
        out.append(c)
        C = (C - c) >> k
    return out


def strip(L):
    L = list(L)
    while L and L[-1] == 0:
        L.pop()
    return L


coef = st.one_of(st.integers(-3, 3), st.integers(-1000, 1000), ints(-10**25, 10**25))
small_poly = st.lists(st.one_of(st.integers(-3, 3), st.integers(-30, 30)), max_size=9)


def seeded_list(t):
    """(length, multiplier, offset, modulus) -> a deterministic long list."""
    n, a, b, m = t
    return [((i*i*a + b*i + a) % m) - m//3 for i in range(n)]


long_spec = st.tuples(st.one_of(st.integers(0, 8), st.integers(24, 70), st.integers(0, 260)), st.integers(0, 10**6), st.integers(0, 10**6),
                      st.sampled_from([1, 2, 3, 5, 1000, 10**12, 10**30]))


# ------------------------------------------------------------------ C21

@law("C21", st.tuples(long_spec, long_spec, st.booleans()), quick=500, shards=3)
def products(case):
    """lists of up to 260 coefficients of any two lengths; both algorithms against integer (Kronecker) multiplication;
    non-trivial: both longer than 29"""
    s, t, tup = case
    a, b = seeded_list(s), seeded_list(t)
    want = mul_ref(a, b)
    x, y = (tuple(a), tuple(b)) if tup else (list(a), list(b))
    got = call(PA.mul_karatsuba, x, y)
    same(strip(got), strip(want), "mul_karatsuba of lengths", len(a), len(b))
    same((list(x), list(y)), (a, b), "arguments of mul_karatsuba")
    same(list(call(PA.mul_classical, x, y)), want, "mul_classical of lengths", len(a), len(b))
    return len(a) > 29 and len(b) > 29


@law("C21", st.tuples(st.lists(coef, max_size=12), st.lists(coef, max_size=12)), quick=600)
def sums(case):
    """coefficientwise sum and difference of lists of different lengths; non-trivial: different lengths"""
    a, b = case
    n = max(len(a), len(b))
    pa, pb = a + [0]*(n - len(a)), b + [0]*(n - len(b))
    x, y = list(a), list(b)
    same(list(call(PA.list_add, x, y)), [u + v for (u, v) in zip(pa, pb)], "list_add", a, b)
    same(list(call(PA.list_subtract, x, y)), [u - v for (u, v) in zip(pa, pb)], "list_subtract", a, b)
    same((x, y), (a, b), "arguments of list_add and list_subtract")
    same(strip(call(PA.mul_classical, x, y)), strip(mul_ref(a, b)), "mul_classical", a, b)
    same(strip(call(PA.mul_karatsuba, x, y)), strip(mul_ref(a, b)), "mul_karatsuba", a, b)
    return len(a) != len(b)


@law("C21", st.tuples(st.lists(st.one_of(st.integers(-2, 2), st.integers(-40, 40), ints(-10**12, 10**12)), min_size=1, max_size=8), st.integers(0, 9)), quick=900)
def powers(case):
    """A^k by repeated products, including zero and shifted polynomials; non-trivial: k > 1 and a leading zero or two or more terms"""
    A, k = case
    want = [1]
    for _ in range(k):
        want = mul_ref(want, A)
    x = list(A)
    same(strip(call(PA.power_jcp, x, k)), strip(want), "power_jcp", A, k)
    same(x, A, "argument of power_jcp")
    same(strip(call(PA.power_jcp, tuple(A), k)), strip(want), "power_jcp", tuple(A), k)
    return k > 1 and sum(1 for c in A if c) > 1


@law("C21", st.tuples(st.integers(8, 90), st.lists(st.tuples(st.integers(0, 89), st.integers(-9, 9)), min_size=1, max_size=6), st.booleans(), st.integers(0, 6)), quick=250)
def long_powers(case):
    """powers of sparse and dense polynomials of up to 90 terms; non-trivial: k > 1"""
    n, terms, dense, k = case
    A = [(i*i + n) % 7 - 3 if dense else 0 for i in range(n)]
    for (i, c) in terms:
        A[i % n] = c
    if not any(A):
        reject()
    want = [1]
    for _ in range(k):
        want = mul_ref(want, A)
    same(strip(call(PA.power_jcp, list(A), k)), strip(want), "power_jcp", A, k)
    p = Polynomial(list(A))
    same(co(call(lambda: p**k)), strip(want), "p**k", A, k)
    return k > 1


# ------------------------------------------------------------------ C22

CLASSES = [Polynomial, PolyZZ, PolyQQ]


def co(p):
    return strip(call(p.coefficients))


def parse_back(text, var):
    """Evaluates the printed form with exact polynomial arithmetic on dictionaries."""
    text = text.replace(" ", "")
    out = {}
    i = 0
    n = len(text)
    while i < n:
        sign = 1
        if text[i] in "+-":
            sign = -1 if text[i] == "-" else 1
            i += 1
        j = i
        while j < n and text[j] not in "+-":
            j += 1
        term = text[i:j]
        i = j
        if var in term:
            c, _, e = term.partition(var)
            c = int(c.rstrip("*")) if c else 1
            e = int(e[1:]) if e else 1
        else:
            c, e = int(term), 0
        out[e] = out.get(e, 0) + sign*c
    deg = max(out)
    return strip([out.get(k, 0) for k in range(deg + 1)])


@law("C22", st.tuples(small_poly, small_poly, small_poly, st.integers(-9, 9), st.integers(0, 5), st.sampled_from([0, 1, 2])), quick=900, shards=2)
def ring_axioms(case):
    """sum, difference, product, power, evaluation, equality and printing against coefficient lists; operands unchanged;
    non-trivial: two polynomials of positive degree"""
    a, b, c, k, e, cls = case
    C = CLASSES[cls]
    A, B, D = strip(a), strip(b), strip(c)
    p, q, r = call(C, list(a)), call(C, tuple(b)), call(C, list(c), "t")
    n = max(len(A), len(B))
    pa, pb = A + [0]*(n - len(A)), B + [0]*(n - len(B))
    add = strip([u + v for (u, v) in zip(pa, pb)])
    sub = strip([u - v for (u, v) in zip(pa, pb)])
    same(co(call(lambda: p + q)), add, "p + q", a, b)
    same(co(call(lambda: p - q)), sub, "p - q", a, b)
    same(co(call(lambda: -p)), [-u for u in A], "-p", a)
    same(co(call(lambda: p*q)), strip(mul_ref(A, B)), "p*q", a, b)
    want = [1]
    for _ in range(e):
        want = mul_ref(want, A)
    same(co(call(lambda: p**e)), strip(want), "p**e", a, e)
    same(co(call(p.power_binary, e)), strip(want), "power_binary", a, e)
    for x in (0, 1, -1, k, 10**9 + k, Fraction(k, 7)):
        v = sum(u*x**i for (i, u) in enumerate(A))
        same(call(p, x), v, "p(x)", a, x)
    # numbers on either side
    kk = strip([k])
    def addk(L, s):
        L = list(L) or [0]
        L[0] += s
        return strip(L)
    same(co(call(lambda: p + k)), addk(A, k), "p + k", a, k)
    same(co(call(lambda: k + p)), addk(A, k), "k + p", a, k)
    same(co(call(lambda: p - k)), addk(A, -k), "p - k", a, k)
    same(co(call(lambda: k - p)), addk([-u for u in A], k), "k - p", a, k)
    same(co(call(lambda: p*k)), strip([u*k for u in A]), "p*k", a, k)
    same(co(call(lambda: k*p)), strip([u*k for u in A]), "k*p", a, k)
    same(co(call(lambda: p - list(b))), sub, "p - list", a, b)
    same(co(call(lambda: p + list(b))), add, "p + list", a, b)
    # equality
    same(call(lambda: p == q), A == B, "p == q", a, b)
    same(call(lambda: p != q), A != B, "p != q", a, b)
    same(call(lambda: p == C(list(a) + [0, 0], "y")), True, "p == p with trailing zeros and another variable", a)
    same(call(lambda: p == k), A == kk, "p == k", a, k)
    same(call(lambda: p != k), A != kk, "p != k", a, k)
    same(call(lambda: (p + q)*r == p*r + q*r), True, "distributivity", a, b, c)
    # shape and printing
    if A:
        same((p.degree, p.lead_coeff), (len(A) - 1, A[-1]), "degree and leading coefficient", a)
        for i in range(len(A)):
            same(call(lambda: p[i]), A[i], "coefficient", a, i)
    same(parse_back(call(repr, r), "t"), D, "printed form", c)
    for (x, L) in ((p, A), (q, B), (r, D)):
        same(co(x), L, "operand after the operations")
    return len(A) > 1 and len(B) > 1


@law("C22", st.tuples(long_spec, long_spec, st.integers(0, 4)), quick=250)
def long_polynomials(case):
    """products, sums and small powers of polynomials of up to 260 terms of different lengths; division undoes the product;
    non-trivial: both longer than 29"""
    s, t, e = case
    A, B = strip(seeded_list(s)), strip(seeded_list(t))
    p, q = call(PolyZZ, list(A)), call(Polynomial, list(B))
    want = strip(mul_ref(A, B))
    same(co(call(lambda: p*q)), want, "product of lengths", len(A), len(B))
    same(co(call(lambda: q*p)), want, "product of lengths", len(B), len(A))
    n = max(len(A), len(B))
    pa, pb = A + [0]*(n - len(A)), B + [0]*(n - len(B))
    same(co(call(lambda: p + q)), strip([u + v for (u, v) in zip(pa, pb)]), "sum of lengths", len(A), len(B))
    same(co(call(lambda: p - q)), strip([u - v for (u, v) in zip(pa, pb)]), "difference of lengths", len(A), len(B))
    if len(A)*e < 300 and A:
        w = [1]
        for _ in range(e):
            w = mul_ref(w, A)
        same(co(call(lambda: p**e)), strip(w), "power", e, "of length", len(A))
        same(co(call(p.power_binary, e)), strip(w), "power_binary", e, "of length", len(A))
    if B and want:
        quo, rem = call(call(Polynomial, want).quo_rem, q)
        same((co(quo), co(rem)), (A, []), "p*q divided by q, lengths", len(A), len(B))
    c = call(p.coefficients)
    c.append(5)
    c[0] = 77
    same(co(p), A, "polynomial after changing the list returned by coefficients()")
    return len(A) > 29 and len(B) > 29


@law("C22", Each(lambda tier: [None, 0, 5, -3]))
def constructors(v):
    """no argument is the variable, a number is a constant; non-trivial: always"""
    for C in CLASSES:
        p = call(C) if v is None else call(C, v)
        same(co(p), [0, 1] if v is None else strip([v]), "coefficients")
        same(co(call(C, [])), [], "zero polynomial")
        same(call(repr, p), "x" if v is None else str(v), "repr")
    return True


@law("C22", st.tuples(small_poly, small_poly, st.booleans()), quick=900)
def division(case):
    """exact integral division or ValueError, and pseudo-division, by their defining identities; non-trivial: divisor of degree > 0, quotient of degree > 0"""
    a, b, exact = case
    B = strip(b)
    if not B:
        raise Reject()
    A = strip(mul_ref(strip(a), B)) if exact else strip(a)
    p, q = Polynomial(list(A)), Polynomial(list(B))
    # over the rationals
    R = [Fraction(x) for x in A]
    Q = [Fraction(0)]*max(1, len(A) - len(B) + 1)
    integral = True
    for i in range(len(A) - len(B), -1, -1):
        c = R[i + len(B) - 1]/B[-1]
        if c.denominator != 1:
            integral = False
        Q[i] = c
        for j in range(len(B)):
            R[i + j] -= c*B[j]
    if integral:
        quo, rem = call(p.quo_rem, q)
        same(co(quo), strip([int(x) for x in Q]), "quotient", A, B)
        same(co(rem), strip([int(x) for x in R]), "remainder", A, B)
    else:
        must_raise(ValueError, p.quo_rem, q)
    m, n = max(len(A), 1) - 1, len(B) - 1
    quo, rem = call(p.pseudo_quo_rem, q)
    if m < n:
        same((co(quo), co(rem)), ([], A), "pseudo_quo_rem of a smaller degree", A, B)
    else:
        L = B[-1]**(m - n + 1)
        same(co(quo), strip([int(L*x) for x in Q]), "pseudo quotient", A, B)
        same(co(rem), strip([int(L*x) for x in R]), "pseudo remainder", A, B)
    same((co(p), co(q)), (A, B), "operands after division")
    return n > 0 and m > n


def gcd_ref(A, B):
    """gcd in Z[x] with positive leading coefficient: content times the primitive rational gcd."""
    c = math.gcd(math.gcd(*A), math.gcd(*B))
    a, b = [Fraction(x) for x in A], [Fraction(x) for x in B]
    while b:
        while len(a) >= len(b):
            t = a[-1]/b[-1]
            s = len(a) - len(b)
            for j in range(len(b)):
                a[s + j] -= t*b[j]
            a = strip(a)
            if not a:
                break
        a, b = b, a
    den = 1
    for x in a:
        den = den*x.denominator//math.gcd(den, x.denominator)
    v = [int(x*den) for x in a]
    g = math.gcd(*v)*(1 if v[-1] > 0 else -1)
    return [c*(x//g) for x in v]


@law("C22", st.tuples(small_poly, small_poly, small_poly, st.integers(1, 12)), quick=700, shards=2)
def polynomial_gcd(case):
    """gcd(f*h, g*h) of integer polynomials against Euclid over the rationals; content and primitive part; non-trivial: gcd of positive degree"""
    a, b, h, k = case
    A, B, H = strip(a), strip(b), strip([k*x for x in h])
    if not A or not B or not H:
        raise Reject()
    F, G = mul_ref(A, H), mul_ref(B, H)
    f, g = PolyZZ(list(F)), PolyZZ(list(G))
    want = gcd_ref(F, G)
    got = call(f.gcd, g)
    same(co(got), want, "gcd", F, G)
    same(co(call(g.gcd, f)), want, "gcd", G, F)
    same(call(f.content), math.gcd(*F), "content", F)
    pp = co(call(f.primitive_part))
    s = 1 if F[-1] > 0 else -1
    same(pp, [s*x//math.gcd(*F) for x in F], "primitive_part", F)
    return len(want) > 1


# ------------------------------------------------------------------ C23

entry = st.one_of(st.integers(-2, 2), st.integers(-50, 50), ints(-10**15, 10**15))


@st.composite
def matrices(draw, r=None, c=None, e=entry):
    r = r or draw(st.integers(1, 5))
    c = c or draw(st.integers(1, 5))
    return draw(st.lists(st.lists(e, min_size=c, max_size=c), min_size=r, max_size=r))


def rows(M, r, c):
    out = []
    for i in range(r):
        row = call(lambda: list(M[i]))
        same(len(row), c, "length of row", i)
        same([call(lambda: M[i, j]) for j in range(c)], row, "entries of row", i)
        out.append(row)
    try:
        M[r]
    except IndexError:
        return out
    ensure(False, "the matrix has more than", r, "rows")


@st.composite
def matrix_triples(draw):
    r, c, k = draw(st.integers(1, 5)), draw(st.integers(1, 5)), draw(st.integers(1, 5))
    return (draw(matrices(r, c)), draw(matrices(r, c)), draw(matrices(c, k)), draw(st.integers(-9, 9)))


@law("C23", matrix_triples(), quick=700, shards=2)
def matrix_ring(case):
    """rectangular matrices up to 5x5: sum, difference, negation, scalar and matrix product, operands unchanged; non-trivial: not square"""
    a, b, c, k = case
    for cls in (Matrix, MatrixZZ, MatrixQQ):
        A, B, C = cls([list(x) for x in a]), cls([list(x) for x in b]), cls([list(x) for x in c])
        r, n, m = len(a), len(a[0]), len(c[0])
        same(rows(call(lambda: A + B), r, n), [[x + y for (x, y) in zip(u, v)] for (u, v) in zip(a, b)], "A + B", a, b)
        same(rows(call(lambda: A - B), r, n), [[x - y for (x, y) in zip(u, v)] for (u, v) in zip(a, b)], "A - B", a, b)
        same(rows(call(lambda: -A), r, n), [[-x for x in u] for u in a], "-A", a)
        same(rows(call(lambda: A*k), r, n), [[x*k for x in u] for u in a], "A*k", a, k)
        same(rows(call(lambda: k*A), r, n), [[x*k for x in u] for u in a], "k*A", a, k)
        prod = [[sum(a[i][t]*c[t][j] for t in range(n)) for j in range(m)] for i in range(r)]
        same(rows(call(lambda: A*C), r, m), prod, "A*C", a, c)
        if m != r:
            must_raise(ValueError, lambda: C*A)
        if (r, n) != (n, m):
            must_raise(ValueError, lambda: A + C)
            must_raise(ValueError, lambda: A - C)
        same((rows(A, r, n), rows(B, r, n), rows(C, n, m)), (a, b, c), "operands after the operations")
    return r != n


def det_ref(a):
    """Determinant by elimination over the rationals."""
    m = [[Fraction(x) for x in row] for row in a]
    n = len(m)
    det = Fraction(1)
    for k in range(n):
        i = next((i for i in range(k, n) if m[i][k]), None)
        if i is None:
            return 0
        if i != k:
            m[i], m[k] = m[k], m[i]
            det = -det
        det *= m[k][k]
        for i in range(k + 1, n):
            t = m[i][k]/m[k][k]
            for j in range(k, n):
                m[i][j] -= t*m[k][j]
    return int(det)


@st.composite
def square_matrices(draw):
    n = draw(st.integers(1, 6))
    a = draw(matrices(n, n, draw(st.sampled_from([st.integers(-1, 1), st.integers(0, 1), entry, st.integers(-6, 6)]))))
    kind = draw(st.sampled_from(["any", "any", "dependent", "zeros", "permuted"]))
    if kind == "dependent" and n > 1:
        i, j = draw(st.permutations(range(n)))[:2]
        t = draw(st.integers(-3, 3))
        a[i] = [t*x for x in a[j]]
    elif kind == "zeros":
        for _ in range(draw(st.integers(0, n*n))):
            a[draw(st.integers(0, n - 1))][draw(st.integers(0, n - 1))] = 0
    elif kind == "permuted":
        # triangular with permuted rows: zero pivots appear
        perm = draw(st.permutations(range(n)))
        a = [[a[i][j] if j >= i else 0 for j in range(n)] for i in perm]
    return a


@law("C23", square_matrices(), quick=1200, shards=2)
def determinants(a):
    """square matrices up to 6x6 with zero pivots, against rational elimination; the matrix is unchanged; non-trivial: nonzero determinant, n > 1"""
    n = len(a)
    M = Matrix([list(x) for x in a])
    want = det_ref(a)
    same(call(M.determinant), want, "determinant", a)
    same(rows(M, n, n), a, "matrix after determinant()")
    same(call(M.determinant), want, "second determinant", a)
    return n > 1 and want != 0


@law("C23", Each(lambda tier: [[[x[i*n + j] for j in range(n)] for i in range(n)] for n in (1, 2, 3) for x in itertools.product((-1, 0, 1), repeat=n*n)]))
def determinants_small(a):
    """every matrix up to 3x3 with entries -1, 0, 1; non-trivial: determinant not 0"""
    want = det_ref(a)
    same(call(Matrix([list(x) for x in a]).determinant), want, "determinant", a)
    return want != 0


@law("C23", st.tuples(matrices(), st.integers(0, 4), st.integers(0, 4), st.integers(-99, 99)), quick=400)
def minors_and_entries(case):
    """deleting a row or column, item assignment, shapes, printing; the original is unchanged; non-trivial: two or more rows and columns"""
    a, i, j, v = case
    r, c = len(a), len(a[0])
    i, j = i % r, j % c
    M = Matrix([list(x) for x in a])
    if r > 1:
        N = call(M.delete_row, i)
        same(rows(N, r - 1, c), [x for (k, x) in enumerate(a) if k != i], "delete_row", a, i)
        N[0, 0] = N[0, 0] + 1
    if c > 1:
        N = call(M.delete_col, j)
        same(rows(N, r, c - 1), [[y for (k, y) in enumerate(x) if k != j] for x in a], "delete_col", a, j)
        N[0, 0] = N[0, 0] + 1
    same(rows(M, r, c), a, "matrix after changing its minors")
    if r != c:
        must_raise(ValueError, M.determinant)
    text = call(repr, M)
    lines = text.split("\n")
    same(len(lines), r, "lines of the printed form")
    for (line, row) in zip(lines, a):
        ensure(line[0] == "[" and line[-1] == "]", "printed row", line)
        same([int(t) for t in line[1:-1].split()], row, "printed row")
    ensure(len({len(x) for x in lines}) == 1, "printed rows are not aligned", text)
    M[i, j] = v
    b = [list(x) for x in a]
    b[i][j] = v
    same(rows(M, r, c), b, "matrix after assignment")
    M[i] = [v]*c
    b[i] = [v]*c
    same(rows(M, r, c), b, "matrix after row assignment")
    Z = call(Matrix, r, c)
    same(rows(Z, r, c), [[0]*c for _ in range(r)], "zero matrix")
    Z[0, 0] = 1
    same(sum(sum(x) for x in rows(Z, r, c)), 1, "rows of a zero matrix are independent")
    same(rows(call(Matrix, c), c, c), [[0]*c for _ in range(c)], "square zero matrix")
    return r > 1 and c > 1


matrix_op = st.one_of(
    st.tuples(st.just("set"), st.integers(0, 5), st.integers(0, 5), st.integers(-4, 4)),
    st.tuples(st.just("row"), st.integers(0, 5), st.lists(st.integers(-4, 4), min_size=6, max_size=6)),
    st.tuples(st.just("inner"), st.integers(0, 5), st.integers(0, 5), st.integers(-4, 4)),
    st.tuples(st.sampled_from(["det", "det", "square", "double", "neg", "repr", "minor"]), st.integers(0, 5)))


@law("C23", st.tuples(square_matrices(), square_matrices(), st.lists(matrix_op, min_size=1, max_size=14)), quick=600)
def matrix_histories(case):
    """assignments between determinants, products and printing of two matrices, against lists of lists;
    non-trivial: a determinant after an assignment"""
    a, b, ops = case
    M, N = Matrix([list(x) for x in a]), Matrix([list(x) for x in b])
    m = [list(x) for x in a]
    n = len(m)
    changed = nt = False
    if len(ops) % 2:
        same(call(M.determinant), det_ref(m), "determinant of", m)
    for op in ops + [("det", 0)]:
        i = op[1] % n
        if op[0] == "set":
            M[i, op[2] % n] = op[3]
            m[i][op[2] % n] = op[3]
        elif op[0] == "inner":
            M[i][op[2] % n] = op[3]
            m[i][op[2] % n] = op[3]
        elif op[0] == "row":
            M[i] = list(op[2][:n])
            m[i] = list(op[2][:n])
        elif op[0] == "det":
            same(call(M.determinant), det_ref(m), "determinant of", m)
            nt = nt or changed
        elif op[0] == "square":
            same(rows(call(lambda: M*M), n, n), [[sum(m[i][t]*m[t][j] for t in range(n)) for j in range(n)] for i in range(n)], "square of", m)
        elif op[0] == "double":
            same(rows(call(lambda: M + M), n, n), [[2*x for x in u] for u in m], "M + M", m)
        elif op[0] == "neg":
            same(rows(call(lambda: -M), n, n), [[-x for x in u] for u in m], "-M", m)
        elif op[0] == "repr":
            same([[int(x) for x in line[1:-1].split()] for line in call(repr, M).split("\n")], m, "printed form")
        elif op[0] == "minor" and n > 1:
            D = call(call(M.delete_row, i).delete_col, op[1] % n)
            d = [[x for (k, x) in enumerate(u) if k != op[1] % n] for (j, u) in enumerate(m) if j != i]
            same(call(D.determinant), det_ref(d), "minor of", m)
        changed = changed or op[0] in ("set", "inner", "row")
        same(rows(M, n, n), m, "matrix after", op)
    same(rows(N, len(b), len(b)), b, "the other matrix")
    same(call(N.determinant), det_ref(b), "determinant of the other matrix")
    return nt


# ------------------------------------------------------------------ C24

series = st.lists(st.one_of(st.integers(-3, 3), st.integers(-10**6, 10**6)), min_size=1, max_size=24)


@law("C24", st.tuples(series, st.sampled_from([1, -1])), quick=500)
def inversion(case):
    """A*A^-1 = 1 + O(x^n) for constant term 1 or -1; non-trivial: n > 2"""
    A, a0 = case
    A = [a0] + A
    x = list(A)
    B = call(PS.ps_invert, x)
    same(len(B), len(A), "length of ps_invert", A)
    same(mul_ref(A, B)[:len(A)], [1] + [0]*(len(A) - 1), "A*ps_invert(A)", A)
    same(x, A, "argument of ps_invert")
    return len(A) > 2


@law("C24", st.tuples(series, st.integers(0, 3), st.integers(0, 8)), quick=600)
def series_powers(case):
    """A^k modulo x^n, including series with zero constant term; non-trivial: k > 1"""
    A, z, k = case
    A = [0]*z + A
    n = len(A)
    want = [1] + [0]*(n - 1)
    for _ in range(k):
        want = (mul_ref(want, A) + [0]*n)[:n]
    x = list(A)
    same(list(call(PS.ps_power, x, k)), want, "ps_power", A, k)
    same(x, A, "argument of ps_power")
    return k > 1


@law("C24", st.tuples(long_spec, long_spec, st.sampled_from([40, 40, 2, 3, 7, 16])), quick=300, shards=2)
def series_products(case):
    """both multiplication algorithms and several thresholds against Kronecker multiplication; non-trivial: both longer than the threshold"""
    s, t, th = case
    a, b = seeded_list(s), seeded_list(t)
    if not a or not b:
        raise Reject()
    want = mul_ref(a, b)
    same(list(call(PS.ps_mult_classical, a, b)), want, "ps_mult_classical of lengths", len(a), len(b))
    got = call(PS.ps_mult_karatsuba, a, b, th) if th != 40 else call(PS.ps_mult_karatsuba, a, b)
    same(strip(got), strip(want), "ps_mult_karatsuba of lengths", len(a), len(b), "threshold", th)
    return len(a) >= th and len(b) >= th


@law("C24", Each(lambda tier: list(range(1, 60)) + ([100, 200, 400] if tier == "quick" else list(range(60, 900, 13)))))
def eta_and_delta(n):
    """eta = prod (1 - x^k) and delta = eta^24 modulo x^n by direct products; non-trivial: n > 7"""
    eta = [1] + [0]*(n - 1)
    for k in range(1, n):
        for i in range(n - 1, k - 1, -1):
            eta[i] -= eta[i - k]
    same(list(call(PS.eta_series, n)), eta, "eta_series", n)
    want = [1] + [0]*(n - 1)
    for _ in range(24):
        want = mul_ref(want, eta)[:n]
    same(list(call(PS.delta_series, n)), want, "delta_series", n)
    return n > 7
