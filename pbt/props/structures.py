"""C32-C34: heaps, disjoint sets, binary indexed sieves; all as operation sequences against models."""
from hypothesis import strategies as st

from pbt.core import Each, Reject, call, ensure, law, same

from rosemary.data_structures.bit_sieve import BITSieve, BITSieveArray
from rosemary.data_structures.heaps import LeftistHeap, PairingHeap
from rosemary.data_structures.unionfind import NamedUnionFind, UnionFind


# ------------------------------------------------------------------ C32

def keys(kind):
    if kind == "int":
        return st.one_of(st.integers(0, 5), st.integers(-100, 100))
    return st.tuples(st.integers(0, 3), st.integers(0, 3))


@st.composite
def leftist_history(draw):
    kind = draw(st.sampled_from(["int", "int", "tup"]))
    k = keys(kind)
    op = st.one_of(
        st.tuples(st.just("new"), st.lists(k, max_size=9)),
        st.tuples(st.just("insert"), st.integers(0, 3), k),
        st.tuples(st.just("insert"), st.integers(0, 3), k),
        st.tuples(st.just("insert"), st.integers(0, 3), k),
        st.tuples(st.just("delete"), st.integers(0, 3)),
        st.tuples(st.just("delete"), st.integers(0, 3)),
        st.tuples(st.just("min"), st.integers(0, 3)),
        st.tuples(st.just("merge"), st.integers(0, 3), st.integers(0, 3)),
        st.tuples(st.just("take"), st.integers(0, 3), st.integers(0, 4)),
    )
    return draw(st.lists(op, min_size=1, max_size=draw(st.sampled_from([6, 20, 60]))))


def run_leftist(ops):
    heaps = []          # [heap, model list]
    work = 0
    for op in ops:
        if op[0] == "new":
            heaps.append([call(LeftistHeap, list(op[1])), sorted(op[1])])
        elif not heaps:
            continue
        else:
            i = op[1] % len(heaps)
            H, model = heaps[i]
            if op[0] == "insert":
                call(H.insert, op[2])
                model.append(op[2])
                model.sort()
            elif op[0] == "delete":
                want = model.pop(0) if model else None
                same(call(H.delete_min), want, "delete_min")
                work += 1
            elif op[0] == "min" and model:
                same(call(H.find_min), model[0], "find_min")
            elif op[0] == "merge":
                j = op[2] % len(heaps)
                if i != j:
                    O, omodel = heaps[j]
                    call(H.merge, O)
                    model.extend(omodel)
                    model.sort()
                    heaps.pop(j)            # the other heap is used up
                    work += 1
            elif op[0] == "take":
                # Draining a copy of the contents through iteration: the heap is emptied.
                if op[2] == 0:
                    same(call(lambda: list(H)), model, "iteration over the heap")
                    del model[:]
                    work += 1
        for (H, model) in heaps:
            same(call(len, H), len(model), "size after", op)
            if model:
                same(call(H.find_min), model[0], "minimum after", op)
            same(call(repr, H), "Leftist heap of size {}.".format(len(model)), "repr")
    for (H, model) in heaps:
        got = [call(H.delete_min) for _ in range(len(model))]
        same(got, model, "remaining values in order")
        same(call(H.delete_min), None, "delete_min of an empty heap")
        same(len(H), 0, "size of the drained heap")
    return work > 1


@law("C32", leftist_history(), quick=900, shards=2)
def leftist(ops):
    """histories of up to 60 operations on several heaps (create, insert, delete_min, find_min, merge, drain) against sorted lists;
    non-trivial: at least two removals or merges"""
    return run_leftist(ops)


def long_history(t):
    """(seed, number of operations) -> a long deterministic pseudo-random history."""
    import random
    seed, n, span = t
    r = random.Random(seed)
    ops = [("new", [r.randrange(span) for _ in range(r.randrange(20))]), ("new", [r.randrange(span)])]
    for _ in range(n):
        c = r.random()
        if c < 0.55:
            ops.append(("insert", r.randrange(4), r.randrange(span)))
        elif c < 0.93:
            ops.append(("delete", r.randrange(4)))
        elif c < 0.97:
            ops.append(("new", [r.randrange(span) for _ in range(r.randrange(12))]))
        else:
            ops.append(("merge", r.randrange(4), r.randrange(4)))
    return ops


@law("C32", st.tuples(st.integers(0, 10**9), st.integers(50, 400), st.sampled_from([3, 50, 10**6])), quick=60)
def leftist_long(t):
    """histories of hundreds of operations; non-trivial: always"""
    return run_leftist(long_history(t))


@st.composite
def pairing_history(draw):
    op = st.one_of(
        st.tuples(st.just("insert"), st.integers(0, 30)),
        st.tuples(st.just("insert"), st.integers(0, 30)),
        st.tuples(st.just("insert"), st.integers(-5, 5)),
        st.tuples(st.just("many"), st.lists(st.integers(0, 20), max_size=6)),
        st.tuples(st.just("delete")),
        st.tuples(st.just("delete")),
        st.tuples(st.just("decrease"), st.integers(0, 40), st.integers(0, 25)),
        st.tuples(st.just("decrease"), st.integers(0, 40), st.integers(0, 25)),
        st.tuples(st.just("list")),
    )
    return draw(st.lists(op, min_size=1, max_size=draw(st.sampled_from([8, 25, 70]))))


def run_pairing(ops):
    H = call(PairingHeap)
    model = {}
    fresh = 0
    dec = dele = 0
    for op in ops:
        if op[0] == "insert":
            v = "v{}".format(fresh)
            fresh += 1
            call(H.insert, op[1], v)
            model[v] = op[1]
        elif op[0] == "many":
            pairs = []
            for k in op[1]:
                pairs.append((k, "v{}".format(fresh)))
                fresh += 1
            call(H.insert_values, list(pairs))
            model.update((v, k) for (k, v) in pairs)
        elif op[0] == "delete":
            node = call(H.delete_min)
            if not model:
                same(node, None, "delete_min of an empty heap")
            else:
                ensure(node is not None, "delete_min gives None on a heap of", len(model))
                v, k = node.value, node.key
                ensure(v in model, "delete_min gives", v, "which is not in the heap")
                same(k, model[v], "key of the deleted value", v)
                same(k, min(model.values()), "deleted key")
                del model[v]
                dele += 1
        elif op[0] == "decrease" and model:
            vs = sorted(model, key=lambda s: int(s[1:]))
            v = vs[op[1] % len(vs)]
            call(H.decrease_key, v, model[v] - op[2])
            model[v] -= op[2]
            dec += 1
        elif op[0] == "list":
            same(sorted(call(H.list_elements)), sorted((k, v) for (v, k) in model.items()), "list_elements")
    same(sorted(call(H.list_elements)), sorted((k, v) for (v, k) in model.items()), "list_elements")
    while model:
        node = call(H.delete_min)
        ensure(node is not None, "delete_min gives None while", len(model), "values remain")
        ensure(node.value in model and node.key == model[node.value] == min(model.values()),
               "drained", (node.key, node.value), "from", sorted(model.items()))
        del model[node.value]
    same(call(H.delete_min), None, "delete_min of an empty heap")
    return dec > 0 and dele > 0


@law("C32", pairing_history(), quick=900, shards=2)
def pairing(ops):
    """histories of inserts, decrease_key and delete_min against a dictionary; non-trivial: both deletions and decreased keys occur"""
    return run_pairing(ops)


def long_pairing(t):
    import random
    seed, n, span = t
    r = random.Random(seed)
    ops = [("many", [r.randrange(span) for _ in range(r.randrange(30))])]
    for _ in range(n):
        c = r.random()
        if c < 0.45:
            ops.append(("insert", r.randrange(span)))
        elif c < 0.75:
            ops.append(("decrease", r.randrange(10**6), r.choice([0, 1, r.randrange(span)])))
        else:
            ops.append(("delete",))
    return ops


@law("C32", st.tuples(st.integers(0, 10**9), st.integers(50, 400), st.sampled_from([3, 50, 10**6])), quick=60)
def pairing_long(t):
    """histories of hundreds of operations; non-trivial: both deletions and decreased keys occur"""
    return run_pairing(long_pairing(t))


# ------------------------------------------------------------------ C33

label = st.sampled_from(["int", "str", "tup"])


def names(kind, n):
    if kind == "int":
        return [3*i - 2 for i in range(n)]
    if kind == "str":
        return ["s{}".format(i) for i in range(n)]
    return [(i % 2, i) for i in range(n)]


@law("C33", st.tuples(label, st.integers(1, 14), st.lists(st.tuples(st.sampled_from(["union", "union", "find", "same"]), st.integers(0, 50), st.integers(0, 50)), max_size=45)), quick=900, shards=2)
def union_find(case):
    """histories of finds and unions of named sets (including a set with itself) against a partition; non-trivial: three or more effective unions"""
    kind, n, ops = case
    L = names(kind, n)
    U = call(UnionFind, list(L))
    part = {x: frozenset([x]) for x in L}
    eff = 0

    def check_all():
        rep = {}
        for x in L:
            r = call(U.find, x)
            ensure(r in part[x], "find", x, "gives", r, "outside its set", sorted(part[x]))
            rep.setdefault(part[x], set()).add(r)
        for (s, rs) in rep.items():
            same(len(rs), 1, "number of names of the set", sorted(s))
    for (op, i, j) in ops:
        x, y = L[i % n], L[j % n]
        if op == "union":
            a, b = call(U.find, x), call(U.find, y)
            call(U.union, a, b)
            if part[x] != part[y]:
                s = part[x] | part[y]
                for z in s:
                    part[z] = s
                eff += 1
        elif op == "find":
            ensure(call(U.find, x) in part[x], "find", x)
        else:
            same(call(U.find, x) == call(U.find, y), part[x] == part[y], "find agrees for", x, y)
        if len(ops) < 12:
            check_all()
    check_all()
    return eff >= 3


@law("C33", st.tuples(label, st.integers(1, 14), st.lists(st.tuples(st.sampled_from(["union", "union", "find"]), st.integers(0, 50), st.integers(0, 50), st.sampled_from([0, 1, 2])), max_size=45)), quick=900, shards=2)
def named_union_find(case):
    """unions under the name of either set or a fresh name; find gives the current name; non-trivial: three or more unions"""
    kind, n, ops = case
    L = names(kind, n)
    U = call(NamedUnionFind, list(L))
    part = {x: (frozenset([x]), x) for x in L}
    eff = 0
    fresh = 0
    for (op, i, j, how) in ops:
        x, y = L[i % n], L[j % n]
        if op == "union":
            (s, a), (t, b) = part[x], part[y]
            if s == t:
                continue
            if how == 0:
                w = a
            elif how == 1:
                w = b
            else:
                w = ("name", fresh)
                fresh += 1
            same(call(U.find, x), a, "find", x)
            call(U.union, a, b, w)
            for z in s | t:
                part[z] = (s | t, w)
            eff += 1
        else:
            same(call(U.find, x), part[x][1], "find", x)
    for x in L:
        same(call(U.find, x), part[x][1], "find", x)
    return eff >= 3


@law("C33", st.tuples(st.integers(0, 10**9), st.integers(30, 500), st.sampled_from(["random", "chain", "halves", "star"])), quick=60, thorough=800)
def long_union_histories(case):
    """unions of up to 500 elements in random order, in a chain, by halves or into one set, on both structures; non-trivial: always"""
    import random
    seed, n, shape = case
    r = random.Random(seed)
    L = list(range(n))
    r.shuffle(L)
    if shape == "chain":
        pairs = list(zip(L, L[1:]))
    elif shape == "star":
        pairs = [(L[0], x) for x in L[1:]]
    elif shape == "halves":
        pairs, k = [], 1
        while k < n:
            pairs += [(L[i], L[i + k]) for i in range(0, n - k, 2*k)]
            k *= 2
    else:
        pairs = [(r.choice(L), r.choice(L)) for _ in range(n)]
    pairs = [p if r.random() < 0.5 else p[::-1] for p in pairs]
    for named in (False, True):
        U = call(NamedUnionFind if named else UnionFind, list(L))
        group = {x: x for x in L}
        members = {x: [x] for x in L}
        name = {x: x for x in L}

        def check(x):
            got = call(U.find, x)
            if named:
                same(got, name[group[x]], "find", x)
            else:
                same(group.get(got), group[x], "set of the element that find gives for", x)
        for (x, y) in pairs:
            if group[x] == group[y]:
                continue
            if named:
                a, b = name[group[x]], name[group[y]]
                w = r.choice([a, b, ("new", x)])
                call(U.union, a, b, w)
            else:
                call(U.union, call(U.find, x), call(U.find, y))
            g, h = group[x], group[y]
            for z in members[h]:
                group[z] = g
            members[g] += members.pop(h)
            if named:
                name[g] = w
            check(r.choice(L))
        for x in L:
            check(x)
        if not named:
            reps = {}
            for x in L:
                reps.setdefault(group[x], set()).add(call(U.find, x))
            same([len(v) for v in reps.values()], [1]*len(members), "number of names of each set")
    return True


# ------------------------------------------------------------------ C34

sieve_ops = st.lists(st.tuples(st.sampled_from(["mark", "mark", "sum", "all"]), st.integers(1, 400)), max_size=14)


@law("C34", st.tuples(st.one_of(st.integers(0, 70), st.integers(0, 300)), sieve_ops), quick=500, shards=2)
def bit_sieves(case):
    """histories of mark_multiples and partial sums on both sieves against a list of flags; non-trivial: two or more marks that remove something"""
    n, ops = case
    S, T = call(BITSieve, n), call(BITSieveArray, n)
    flags = [0] + [1]*n
    eff = 0

    def check():
        same(list(call(S.entries)), flags[1:], "entries of BITSieve")
        same(list(call(T.entries)), flags, "entries of BITSieveArray")
        total = 0
        for m in range(n + 1):
            total += flags[m]
            same(call(S.partial_sum, m), total, "BITSieve.partial_sum", m)
            same(call(T.partial_sum, m), total, "BITSieveArray.partial_sum", m)
    for (op, v) in ops:
        if op == "mark":
            hit = any(flags[i] for i in range(v, n + 1, v))
            call(S.mark_multiples, v)
            call(T.mark_multiples, v)
            for i in range(v, n + 1, v):
                flags[i] = 0
            eff += hit
        elif op == "sum":
            m = v % (n + 1)
            same(call(S.partial_sum, m), sum(flags[:m + 1]), "BITSieve.partial_sum", m)
            same(call(T.partial_sum, m), sum(flags[:m + 1]), "BITSieveArray.partial_sum", m)
        else:
            call(S.update)
            check()
    check()
    return eff >= 2


@law("C34", Each(lambda tier: range(1, 130 if tier == "quick" else 600)))
def legendre(n):
    """sieving by the primes up to sqrt(n) leaves 1 and the primes above it, at every n; non-trivial: n > 8"""
    S, T = call(BITSieve, n), call(BITSieveArray, n)
    ps = [p for p in range(2, n + 1) if p*p <= n and all(p % q for q in range(2, p))]
    flags = [0] + [1]*n
    for p in ps:
        call(S.mark_multiples, p)
        call(T.mark_multiples, p)
        for i in range(p, n + 1, p):
            flags[i] = 0
        for m in range(n + 1):
            want = sum(flags[:m + 1])
            same(call(S.partial_sum, m), want, "BITSieve.partial_sum", m, "after", p)
            same(call(T.partial_sum, m), want, "BITSieveArray.partial_sum", m, "after", p)
    return n > 8


@law("C34", st.tuples(st.integers(300, 5000), st.integers(0, 10**9)), quick=25, thorough=300, cpu=60)
def long_bit_sieves(case):
    """sieves of up to 5000 entries, marked in random order by primes and other numbers; non-trivial: always"""
    import random
    n, seed = case
    r = random.Random(seed)
    S, T = call(BITSieve, n), call(BITSieveArray, n)
    flags = [0] + [1]*n
    for _ in range(r.randrange(2, 7)):
        v = r.choice([2, 3, 5, 7, r.randrange(2, 40), r.randrange(2, n + 1)])
        call(S.mark_multiples, v)
        call(T.mark_multiples, v)
        for i in range(v, n + 1, v):
            flags[i] = 0
        sums = [0]
        for f in flags[1:]:
            sums.append(sums[-1] + f)
        for m in [0, 1, n - 1, n, 1 << r.randrange(n.bit_length()), (1 << (n.bit_length() - 1)) - 1] + [r.randrange(n + 1) for _ in range(40)]:
            same(call(S.partial_sum, m), sums[m], "BITSieve.partial_sum", m, "after", v)
            same(call(T.partial_sum, m), sums[m], "BITSieveArray.partial_sum", m, "after", v)
    same(list(call(S.entries)), flags[1:], "entries of BITSieve")
    same(list(call(T.entries)), flags, "entries of BITSieveArray")
    return True
