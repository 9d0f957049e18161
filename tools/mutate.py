"""
Mutation campaign over rosemary (development aid; nothing here is run by the checks).

  python3-vt tools/mutate.py OUT.jsonl [--files REGEX] [--sample P] [--seed N] [--jobs N] [--cov DIR]

Every mutant is made in a scratch copy of /repo; the checks of the properties whose laws execute the mutated line (from a
PBT_COV run of the whole suite) are run on it, the most specific first, until one reports a violation.
"""
import argparse, ast, collections, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import warnings

warnings.simplefilter("ignore")

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not",
       ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*", ast.Mod: "//", ast.Pow: "*", ast.Div: "*",
       ast.LShift: ">>", ast.RShift: "<<", ast.BitAnd: "|", ast.BitOr: "&", ast.BitXor: "|"}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    data = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return data[a:b].decode()
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0])
            doc.add(n.body[0].value)
    out = []

    def add(n, new, kind):
        a, b = span(n)
        out.append((n.lineno, kind, a, b, new, data[a:b].decode()))
    for n in ast.walk(tree):
        if isinstance(n, (ast.List, ast.Tuple, ast.Dict, ast.Set)) and len(ast.dump(n)) > 4000:
            doc.update(ast.walk(n))
    infun = []
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            infun.append(f)
    seen = set()
    for f in infun:
        for n in ast.walk(f):
            if n in doc or id(n) in seen or n is f:
                continue
            seen.add(id(n))
            if isinstance(n, ast.Raise):
                for m in ast.walk(n):
                    seen.add(id(m))
                continue
            if isinstance(n, ast.Compare):
                for i, op in enumerate(n.ops):
                    parts = [text(n.left)]
                    for j, (o, c) in enumerate(zip(n.ops, n.comparators)):
                        sym = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=",
                               ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}[type(o)]
                        if i == j:
                            sym = CMP[type(op)]
                        parts += [sym, "(" + text(c) + ")"]
                    add(n, " ".join(parts), "cmp")
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                    continue
                add(n, "(({}) {} ({}))".format(text(n.left), BIN[type(n.op)], text(n.right)), "bin")
                if isinstance(n.op, ast.Add) or isinstance(n.op, ast.Sub):
                    add(n, "({})".format(text(n.left)), "drop-right")
            elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
                add(n, "{} {}= {}".format(text(n.target), BIN[type(n.op)], text(n.value)), "aug")
                add(n, "pass", "del")
            elif isinstance(n, ast.BoolOp):
                w = " or " if isinstance(n.op, ast.And) else " and "
                add(n, "(" + w.join("(" + text(v) + ")" for v in n.values) + ")", "bool")
                for i in range(len(n.values)):
                    add(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(
                        "(" + text(v) + ")" for j, v in enumerate(n.values) if j != i) + ")", "drop-cond")
            elif isinstance(n, ast.Constant) and type(n.value) is int:
                add(n, "(" + str(n.value + 1) + ")", "const+1")
                add(n, "(" + str(n.value - 1) + ")", "const-1")
            elif isinstance(n, ast.Constant) and type(n.value) is bool:
                add(n, str(not n.value), "bool-const")
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
                add(n, "(" + text(n.operand) + ")", "unary")
            elif isinstance(n, (ast.If, ast.While)):
                add(n.test, "(not (" + text(n.test) + "))", "negate")
                if isinstance(n, ast.If):
                    add(n.test, "(False and (" + text(n.test) + "))", "never")
                    add(n.test, "(True or (" + text(n.test) + "))", "always")
            elif isinstance(n, ast.Assign):
                add(n, "pass", "del")
            elif isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant):
                add(n, "pass", "del")
            elif isinstance(n, ast.Continue):
                add(n, "break", "cont")
                add(n, "pass", "cont-del")
            elif isinstance(n, ast.Break):
                add(n, "continue", "brk")
                add(n, "pass", "brk-del")
            elif isinstance(n, ast.comprehension) and n.ifs:
                for t in n.ifs:
                    add(t, "True", "filter")
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("min", "max"):
                add(n.func, "max" if n.func.id == "min" else "min", "minmax")
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("list", "sorted", "set", "abs") and len(n.args) == 1 \
                    and not isinstance(n.args[0], ast.GeneratorExp) and not n.keywords:
                add(n, "(" + text(n.args[0]) + ")", "unwrap")
            elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
                pass
    res = []
    for m in out:
        new = data[:m[2]] + m[4].encode() + data[m[3]:]
        try:
            compile(new, "x", "exec")
        except (SyntaxError, ValueError):
            continue
        res.append((m[0], m[1], m[5], m[4], new.decode()))
    return res


def special(src):
    """Mutants that leave small inputs alone: floats for integers, words of 64 and 32 bits, truth values for None, loops cut short, objects shared."""
    tree = ast.parse(src)
    offs = [0]
    for l in src.split("\n"):
        offs.append(offs[-1] + len(l.encode()) + 1)
    data = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return data[a:b].decode()
    out = []

    def add(n, new, kind):
        a, b = span(n)
        out.append((n.lineno, kind, a, b, new, data[a:b].decode()))
    seen = set()
    for f in ast.walk(tree):
        if not isinstance(f, ast.FunctionDef):
            continue
        raised = {m for n in ast.walk(f) if isinstance(n, ast.Raise) for m in ast.walk(n)}
        for n in ast.walk(f):
            if n in raised or id(n) in seen or n is f:
                continue
            seen.add(id(n))
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.FloorDiv):
                add(n, "int(({})/({}))".format(text(n.left), text(n.right)), "float-div")
            elif isinstance(n, ast.AugAssign) and isinstance(n.op, ast.FloorDiv):
                add(n, "{0} = int({0}/({1}))".format(text(n.target), text(n.value)), "float-div")
            elif isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.Mult)) and not isinstance(n.value, (ast.Constant, ast.UnaryOp)):
                op = "+" if isinstance(n.op, ast.Add) else "*"
                for bits in (32, 62):
                    add(n, "{0} = (lambda _v: _v if type(_v) is not int or abs(_v) < 2**{3} else _v - (_v >> {3} << {3}))({0} {1} ({2}))".format(
                        text(n.target), op, text(n.value), bits), "word%d" % bits)
            elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.LShift):
                add(n, "(({}) << (({}) % 64))".format(text(n.left), text(n.right)), "shift64")
            elif isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None:
                if isinstance(n.ops[0], ast.Is):
                    add(n, "(not {})".format(text(n.left)), "falsy")
                elif isinstance(n.ops[0], ast.IsNot):
                    add(n, "bool({})".format(text(n.left)), "falsy")
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.args:
                a = [text(x) for x in n.args]
                if n.func.id == "integer_sqrt":
                    add(n, "int(({})**0.5)".format(a[0]), "float-sqrt")
                elif n.func.id == "integer_nth_root":
                    add(n, "int(({1})**(1.0/({0})) + 1e-9)".format(*a), "float-root")
                elif n.func.id == "range" and len(a) < 3:
                    lo, hi = ("0", a[0]) if len(a) == 1 else a
                    for cut in (40,):
                        add(n, "range({0}, min({1}, ({0}) + {2}))".format(lo, hi, cut), "cut%d" % cut)
                elif n.func.id == "set" and len(a) == 1:
                    add(n, "({})".format(a[0]), "shared")
                elif n.func.id == "list" and len(a) == 1:
                    add(n, "({})".format(a[0]), "shared")
                elif n.func.id == "sorted" and not n.keywords:
                    add(n, "list({})".format(a[0]), "unsorted")
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "deepcopy"):
                if n.args:
                    add(n, "({})".format(text(n.args[0])), "shared")
                    add(n, "copy.copy({})".format(text(n.args[0])), "shallow")
                else:
                    add(n, "({})".format(text(n.func.value)), "shared")
            elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and n.slice.lower is None and n.slice.upper is None and n.slice.step is None:
                add(n, "({})".format(text(n.value)), "shared")
            elif isinstance(n, ast.ListComp) and isinstance(n.elt, ast.BinOp) and text(n.elt).startswith("[0]"):
                pass
            elif isinstance(n, ast.While) and isinstance(n.test, ast.Compare):
                pass
    res = []
    for m in out:
        new = data[:m[2]] + m[4].encode() + data[m[3]:]
        try:
            compile(new, "x", "exec")
        except (SyntaxError, ValueError):
            continue
        res.append((m[0], m[1], m[5], m[4], new.decode()))
    return res


def child(conn, repo, plan):
    """Runs the laws of the plan [(scale, cpu, [(prop, [laws])])] on the copy until one of them fails."""
    import importlib
    sys.stdout.flush()
    os.setpgid(0, 0)
    core.REPO = repo
    sys.path.insert(0, repo)
    out = []
    try:
        for (scale, cpu, props) in plan:
            os.environ["PBT_SCALE"] = str(scale)
            os.environ["PBT_CPU"] = str(cpu)
            for (p, laws) in props:
                importlib.import_module("pbt.props." + registry.MODULE[p])
                importlib.import_module("pbt.props.scale")
                importlib.import_module("pbt.props.scale_more")
                importlib.import_module("pbt.props.scale_third")
                importlib.import_module("pbt.props.scale_args")
                os.environ["PBT_LAW"] = ",".join(laws)
                core._QUICK_FACTOR.clear()
                res = core.run_property(p, "quick", 1)
                for r in res:
                    if r["fail"]:
                        out.append(("K", p, r["law"], r["fail"][1][:200]))
                        conn.send(out)
                        os._exit(0)
                    if r["error"]:
                        out.append(("E", p, r["law"], r["error"][-300:]))
    except BaseException as e:
        out.append(("E", "", "", repr(e)[:300]))
    conn.send(out)
    os._exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files", default=".")
    ap.add_argument("--sample", type=float, default=1.0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--special", action="store_true")
    ap.add_argument("--cov", default="/tmp/mut/cov")
    a = ap.parse_args()
    os.environ.update(PBT_JOBS="1", PBT_SHRINK="0")
    sys.path.insert(0, VERIF)
    global core, registry
    import hypothesis, sympy, networkx
    from pbt import core, registry
    sys.set_int_max_str_digits(0)
    core._NO_SHRINK = True
    cover = collections.defaultdict(set)
    size = collections.Counter()
    for fn in os.listdir(a.cov):
        p, law = fn.split("-")[:2]
        for l in open(os.path.join(a.cov, fn)):
            f, k = l.strip().rsplit(":", 1)
            f = f.split("/rosemary/", 1)[1]
            cover[f, int(k)].add((p, law))
            size[p, law] += 1
    anch = {}
    for l in open(os.path.join(VERIF, "properties.jsonl")):
        d = json.loads(l)
        anch[d["id"]] = {x.split("rosemary/", 1)[1] for x in d["anchors"]["files"]}
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["kind"], d["old"], d["new"]))
    work = []
    rnd = random.Random(a.seed)
    for root, ds, fs in os.walk(os.path.join(REPO, "rosemary")):
        if "test" in os.path.basename(root):
            continue
        for f in sorted(fs):
            path = os.path.join(root, f)
            rel = path.split("/rosemary/", 1)[1]
            if not f.endswith(".py") or f.startswith("test_") or f == "prime_list.py" or not re.search(a.files, rel):
                continue
            for (ln, kind, old, new, src) in (special if a.special else mutants)(open(path).read()):
                if rnd.random() > a.sample*(0.1 if "prime_counting" in rel and "x//" in old else 0.1 if kind == "float-div" and "prime_counting" in rel else 1):
                    continue
                if (rel, ln, kind, old, new) in done:
                    continue
                laws = sorted((pl for pl in cover.get((rel, ln), ()) if pl[0] != "C48" and rel in anch[pl[0]]), key=lambda x: size[x])
                if not laws:
                    laws = sorted(cover.get((rel, ln), ()), key=lambda x: size[x])[:10]
                plan = []
                for (scale, cpu, k) in ((0.3, 6, 10), (3, 60, 40)):
                    g = collections.OrderedDict()
                    for (p, l) in laws[:k]:
                        g.setdefault(p, []).append(l)
                    plan.append((scale, cpu, list(g.items())))
                work.append((rel, ln, kind, old, new, src, plan))
    rnd.shuffle(work)
    print(len(work), "mutants", flush=True)
    for s in range(a.jobs):
        d = "/tmp/mut/w%d" % s
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(REPO, d + "/repo", ignore=shutil.ignore_patterns(".git", "__pycache__"))
    import multiprocessing, multiprocessing.connection, signal
    ctx = multiprocessing.get_context("fork")
    outf = open(a.out, "a")
    t0 = time.time()
    stat = collections.Counter()
    running = {}
    free = list(range(a.jobs))
    work.reverse()
    n = 0
    while work or running:
        while work and free:
            w = work.pop()
            s = free.pop()
            d = "/tmp/mut/w%d/repo" % s
            open(os.path.join(d, "rosemary", w[0]), "w").write(w[5])
            c1, c2 = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(c2, d, w[6]))
            p.start()
            c2.close()
            running[c1] = (p, s, w, time.time())
        ready = multiprocessing.connection.wait(list(running), timeout=1)
        for c in list(running):
            p, s, w, t = running[c]
            if c in ready:
                try:
                    out = c.recv()
                except EOFError:
                    out = [("E", "", "", "died")]
            elif time.time() - t > 500:
                out = [("T", "", "", "timeout")]
            else:
                continue
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.join()
            c.close()
            del running[c]
            rel, ln, kind, old, new, src, plan = w
            shutil.copy(os.path.join(REPO, "rosemary", rel), "/tmp/mut/w%d/repo/rosemary/%s" % (s, rel))
            free.append(s)
            killed = next((o for o in out if o[0] == "K"), None)
            st = "killed" if killed else "uncovered" if not plan[0][2] else "error" if out else "SURVIVED"
            stat[st] += 1
            outf.write(json.dumps({"file": rel, "line": ln, "kind": kind, "old": old, "new": new, "status": st, "res": out[-3:],
                                   "laws": [l for (_, ls) in plan[-1][2] for l in ls], "s": round(time.time() - t, 1)}) + "\n")
            outf.flush()
            n += 1
            if n % 50 == 0:
                print(n, dict(stat), int(time.time() - t0), "s", flush=True)
    print(dict(stat), int(time.time() - t0), "s")


main()
