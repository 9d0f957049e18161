"""
Shared machinery of the property checks.

A *law* is an executable statement about the public behaviour of rosemary.  It
is a function of ONE plain Python literal (the case), and a case generator:

  * a Hypothesis strategy (random, structured, shrunk on failure), or
  * `Each(f)`: a finite domain, enumerated completely in order of size
    (small-scope exhaustive generation; the first failure is the smallest).

A law raises `Violation` when the code under test contradicts the oracle, and
returns a truthy value when the case was non-trivial by the rule stated for the
law.  Everything the code under test does is run through `call(...)`, so that an
exception escaping from rosemary on a valid input is a violation, while any
other exception is an error of this harness (exit status 3, never VIOLATION).
"""
import ast
import collections
import itertools
import json
import multiprocessing
import os
import pickle
import random
import resource
import signal
import sys
import time
import traceback
import zlib

REPO = os.environ.get("PBT_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The code under test contradicts the property."""


class Hang(BaseException):
    """A single case used far more CPU time than any case of this law may."""


class StopLaw(BaseException):
    """Ends the generation of cases (budget used up, or shrinking finished)."""


class Reject(Exception):
    """The generated case is outside the domain of the law."""


# ---------------------------------------------------------------------------
# Assertions used by laws
# ---------------------------------------------------------------------------

def short(x, limit=300):
    try:
        s = repr(x)
    except Exception as e:          # repr belongs to the code under test
        s = "<unprintable {}: {}>".format(type(x).__name__, e)
    if len(s) > limit:
        s = s[:limit] + "...({} chars)".format(len(s))
    return s


def _fname(fn):
    return getattr(fn, "__qualname__", None) or getattr(fn, "__name__", None) or repr(fn)


CALLS = [0]         # calls into the code under test made for the current case
_MALFORMED = (TypeError, ValueError, KeyError, IndexError, AttributeError, ZeroDivisionError, OverflowError)


def evaluate(L, case):
    """
    Runs one case. The oracles are total on well-formed results; when one of them cannot digest what the
    code under test returned (None instead of a list, say), that result is malformed: a violation too.
    """
    CALLS[0] = 0
    DISTURB[0] = L.prop in CHANGING
    try:
        return L.fn(case)
    except _MALFORMED as e:
        if not CALLS[0]:
            raise
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if "/rosemary/" in f.filename]
        raise Violation("the result is malformed: {}: {} at {}:{}{}".format(
            type(e).__name__, short(str(e), 200), os.path.basename(tb[-1].filename), tb[-1].lineno,
            " (in {}:{})".format(os.path.basename(inside[-1].filename), inside[-1].lineno) if inside else "")) from None


# Laws on graphs (C36-C46): about one call in three is preceded by the same call on the same graph object with one edge added,
# removed or reweighted, which is then put back: an answer remembered for the object, or derived data gone stale, is then seen.
CHANGING = frozenset("C{}".format(i) for i in range(36, 47))
DISTURB = [False]
_MUTATORS = ("add_vertex", "add_vertices", "add_edge", "add_edges", "delete_vertex", "delete_vertices", "delete_edge")


def _is_graph(x):
    return type(x).__name__ == "Graph" and type(x).__module__.startswith("rosemary")


def _connected(neighbors, s, t):
    seen, stack = {s}, [s]
    while stack:
        for v in neighbors[stack.pop()]:
            if v not in seen:
                seen.add(v)
                stack.append(v)
    return t in seen


def disturb(fn, args, kwargs):
    name = getattr(fn, "__name__", "")
    owner = getattr(fn, "__self__", None)
    graph = owner if _is_graph(owner) and name not in _MUTATORS else next((a for a in args if _is_graph(a)), None)
    if graph is None or name == "culberson":
        return
    undo = None
    state = random.getstate()
    try:
        vertices = list(graph.vertices())
        neighbors = {u: {v: graph[u][v] for v in graph.neighbors(u)} for u in vertices}
        rng = random.Random("{} {} {}".format(name, CALLS[0], neighbors))
        n = len(vertices)
        if n < 3 or n > 30 or rng.random() > 0.35:
            return
        u, v = rng.sample(vertices, 2)
        weights = sorted(w for d in neighbors.values() for w in d.values()) or [1]
        if v not in neighbors[u]:
            graph.add_edge(u, v, rng.choice(weights))
            undo = lambda: graph.delete_edge(u, v)
        else:
            w = neighbors[u][v]
            del neighbors[u][v], neighbors[v][u]
            if rng.random() < 0.6 and _connected(neighbors, u, v):
                graph.delete_edge(u, v)
            else:
                graph.add_edge(u, v, rng.choice(weights))
            undo = lambda: graph.add_edge(u, v, w)
        result = fn(*args, **kwargs)
        if hasattr(result, "__next__"):
            for _ in itertools.islice(result, 40):
                pass
    except Exception:
        pass            # the disturbed graph may be outside the domain of the function
    finally:
        if undo is not None:
            try:
                undo()
            except Exception:
                pass
        random.setstate(state)


def call(fn, *args, **kwargs):
    """Runs the code under test. Any exception is a violation."""
    if DISTURB[0]:
        disturb(fn, args, kwargs)
    CALLS[0] += 1
    try:
        return fn(*args, **kwargs)
    except Violation:
        raise
    except (Exception, GeneratorExit) as e:
        where = ""
        tb = traceback.extract_tb(e.__traceback__)
        if tb:
            where = " at {}:{}".format(os.path.basename(tb[-1].filename), tb[-1].lineno)
        raise Violation("{}({}) raised {}: {}{}".format(
            _fname(fn), ", ".join([short(a, 120) for a in args] + ["{}={}".format(k, short(v, 80)) for k, v in kwargs.items()]),
            type(e).__name__, short(str(e), 200), where)) from None


def call_list(fn, *args, limit=None, **kwargs):
    """Runs an iterator-returning function to exhaustion, keeping the yielded objects as they are (no copies)."""
    def consume():
        out = []
        for x in fn(*args, **kwargs):
            out.append(x)
            if limit is not None and len(out) > limit:
                raise Violation("{}({}) yields more than {} values".format(
                    _fname(fn), ", ".join(short(a, 120) for a in args), limit))
        return out
    consume.__qualname__ = _fname(fn)
    if DISTURB[0]:
        disturb(fn, args, kwargs)
    return call(consume)


def must_raise(exc, fn, *args, **kwargs):
    """The code under test must reject these arguments with exc."""
    try:
        got = fn(*args, **kwargs)
    except exc:
        return
    except Exception as e:
        raise Violation("{}({}) raised {} instead of {}".format(
            _fname(fn), ", ".join(short(a, 120) for a in args), type(e).__name__, exc)) from None
    raise Violation("{}({}) returned {} instead of raising {}".format(
        _fname(fn), ", ".join(short(a, 120) for a in args), short(got), exc))


def ensure(cond, *msg):
    if not cond:
        raise Violation(" ".join(m if isinstance(m, str) else short(m) for m in msg) or "condition failed")


def same(got, want, *msg):
    if not (got == want):
        raise Violation("{}: got {}, expected {}".format(
            " ".join(m if isinstance(m, str) else short(m) for m in msg), short(got), short(want)))


def is_int(x):
    return isinstance(x, int) and not isinstance(x, bool)


def reject():
    raise Reject()


# ---------------------------------------------------------------------------
# Laws
# ---------------------------------------------------------------------------

class Each(object):
    """Complete enumeration of a finite domain; f(tier) yields the cases."""
    def __init__(self, f, whole=True):
        self.f = f
        self.whole = whole          # False: a list of chosen cases, not a complete small domain


class Law(object):
    def __init__(self, prop, name, gen, fn, quick, thorough, shards, rule, cpu, known):
        self.prop = prop
        self.name = name
        self.gen = gen
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.shards = shards
        self.rule = rule
        self.cpu = cpu
        self.known = known


LAWS = {}

# The `quick` counts of the laws were chosen for a few seconds per property; this is what the quick tier can afford.
_QUICK_FACTOR = {"C01": 1, "C02": 1, "C03": 1, "C04": 3, "C05": 1, "C06": 1, "C07": 2, "C08": 1, "C09": 2,
                 "C10": 2, "C11": 2, "C12": 4, "C13": 2, "C14": 2, "C48": 1}


def law(prop, gen, quick=1000, thorough=None, shards=1, rule=None, cpu=30.0, name=None, known=None):
    """
    Registers a law of the given property.

      gen       Hypothesis strategy, callable returning one, or Each(...)
      quick     number of cases per shard in the quick tier, before _QUICK_FACTOR (ignored by Each)
      thorough  the same in the thorough tier (default 20 x quick)
      rule      what makes a case non-trivial
      cpu       user CPU seconds one case may take before it counts as hanging
    """
    def deco(fn):
        n = name or fn.__name__
        L = Law(prop, n, gen, fn, quick*_QUICK_FACTOR.get(prop, 4),
                max(thorough or quick*20, quick*_QUICK_FACTOR.get(prop, 4)), shards,
                rule or (fn.__doc__ or "").strip(), cpu, known)
        LAWS.setdefault(prop, {})[n] = L
        return fn
    return deco


# ---------------------------------------------------------------------------
# Running one law in a worker process
# ---------------------------------------------------------------------------

_NO_SHRINK = os.environ.get("PBT_SHRINK") == "0"     # development aid (tools/mutate.py)
_MAX_KEEP = 4
_MAX_LOG = 3000
_REVISIT = 150


class Runner(object):
    def __init__(self, L, tier, seed, shard, nshards, cur):
        self.L = L
        self.tier = tier
        self.seed = seed
        self.shard = shard
        self.nshards = nshards
        self.evaluations = 0
        self.rejected = 0
        self.nontrivial = set()
        self.samples = []
        self.fail = None            # (case, message, hang)
        self.fail_count = 0
        self.shrink_deadline = None
        self.cur = cur              # shared buffer: current case, for the parent
        self.t_end = None
        self.complete = True
        self.known = {repr(c) for (n, c, _) in known_findings(L.prop) if n == L.name}
        self.log = collections.deque(maxlen=_MAX_LOG)   # cases evaluated before the first failure
        self.first = None           # the first failing case, before shrinking
        self.passed = []            # reservoir of cases that held, to be evaluated once more at the end
        self.npassed = 0
        self.pick = random.Random(seed*7919 + shard)

    def note_current(self, case):
        text = repr(case).encode()[:self.cur.size - 16]
        self.cur.put(self.evaluations, text)

    def one(self, case):
        L = self.L
        now = time.process_time()
        if self.fail is not None and now > self.shrink_deadline:
            raise StopLaw()
        if self.fail is None and self.t_end is not None and now > self.t_end:
            self.complete = False
            raise StopLaw()
        text = repr(case)
        random.seed(zlib.crc32(text.encode()))
        self.evaluations += 1
        if self.fail is None:
            self.log.append(text)
        self.note_current(case)
        signal.setitimer(signal.ITIMER_VIRTUAL, L.cpu if self.fail is None else min(L.cpu, 5.0))
        try:
            nt = evaluate(L, case)
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        except Reject:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            self.rejected += 1
            return
        except Violation as e:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            if text in self.known:
                return
            self.record(case, str(e), False)
            raise
        except Hang:
            if self.fail is None:
                self.record(case, "no result after {} s of CPU time (cases of this law take a small fraction of that)".format(L.cpu), True)
            raise
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if self.revisiting:
            return
        self.npassed += 1
        if len(text) < 20000:
            if len(self.passed) < _REVISIT:
                self.passed.append(text)
            else:
                k = self.pick.randrange(self.npassed)
                if k < _REVISIT:
                    self.passed[k] = text
        if nt:
            h = zlib.crc32(text.encode()) | (len(text) << 32)
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                k = len(self.nontrivial)
                if len(self.samples) < _MAX_KEEP:
                    self.samples.append(text[:400])
                elif k & (k - 1) == 0:
                    self.samples[(k.bit_length()) % _MAX_KEEP] = text[:400]

    def record(self, case, msg, hang):
        self.fail_count += 1
        text = repr(case)
        if self.fail is None:
            self.first = text
            self.shrink_deadline = time.process_time() + (0 if _NO_SHRINK else 25.0 if self.tier == "quick" else 60.0)
            self.fail = (text, msg, hang)
        elif len(text) <= len(self.fail[0]):
            self.fail = (text, msg, hang)

    def run(self):
        t0 = time.process_time()
        self.generate()
        # Cases that held must hold again: the answers may not depend on what was computed in between.
        if self.fail is None:
            self.revisiting = True
            used = time.process_time() - t0
            self.t_end = time.process_time() + max(1.0, 0.2*used)
            self.pick.shuffle(self.passed)
            done = self.complete
            try:
                for text in self.passed:
                    self.one(ast.literal_eval(text))
            except (Violation, Hang, StopLaw):
                pass
            self.complete = done

    revisiting = False

    def generate(self):
        L = self.L
        gen = L.gen
        quick = self.tier == "quick"
        budget = float(os.environ.get("PBT_CPU", 90.0 if quick else 900.0))
        self.t_end = time.process_time() + budget
        if isinstance(gen, Each):
            it = gen.f(self.tier)
            try:
                for (i, case) in enumerate(it):
                    if self.nshards > 1 and i % self.nshards != self.shard:
                        continue
                    self.one(case)
            except (Violation, Hang, StopLaw):
                pass
            return
        import hypothesis
        from hypothesis import HealthCheck, Phase, settings, given
        if callable(gen) and not hasattr(gen, "example"):
            gen = gen()
        n = L.quick if quick else L.thorough
        n = max(1, int(n*float(os.environ.get("PBT_SCALE", "1"))))
        phases = [Phase.generate, Phase.shrink]

        @hypothesis.seed(self.seed*1000003 + zlib.crc32(L.name.encode())*31 + self.shard)
        @settings(max_examples=n, database=None, deadline=None, phases=phases,
                  suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                  print_blob=False, verbosity=hypothesis.Verbosity.quiet)
        @given(gen)
        def test(case):
            try:
                self.one(case)
            except Reject:
                hypothesis.reject()
        try:
            test()
        except (Violation, Hang, StopLaw):
            pass
        except BaseException:
            # Hypothesis wraps non-reproducible failures; the recorded case stands.
            if self.fail is None:
                raise


class Cur(object):
    """A shared memory cell with the case a worker is working on."""
    size = 1 << 16

    def __init__(self):
        import mmap
        self.m = mmap.mmap(-1, self.size)

    def put(self, count, text):
        self.m[0:8] = count.to_bytes(8, "little")
        self.m[8:12] = len(text).to_bytes(4, "little")
        self.m[12:12 + len(text)] = text

    def get(self):
        count = int.from_bytes(self.m[0:8], "little")
        n = int.from_bytes(self.m[8:12], "little")
        return count, bytes(self.m[12:12 + n]).decode(errors="replace")


def _on_alarm(signum, frame):
    raise Hang()


def _fast_stack(context=1):
    """inspect.stack() without reading source files (rosemary calls it per function call)."""
    import inspect
    out = []
    f = sys._getframe(1)
    while f is not None:
        out.append(inspect.FrameInfo(f, f.f_code.co_filename, f.f_lineno, f.f_code.co_name, None, None))
        f = f.f_back
    return out


def _watch_lines():
    """Lines of rosemary executed in this process (development aid: PBT_COV=<directory>; see tools/uncovered.py)."""
    lines = set()
    prefix = os.path.join(REPO, "rosemary") + os.sep
    mon = sys.monitoring

    def line(code, lineno):
        if code.co_filename.startswith(prefix):
            lines.add((code.co_filename, lineno))
        return mon.DISABLE
    mon.use_tool_id(3, "pbt")
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    return lines


def _worker(L, tier, seed, shard, nshards, cur, conn):
    signal.signal(signal.SIGVTALRM, _on_alarm)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    sys.stdout.flush()
    devnull = open(os.devnull, "w")
    sys.stdout = devnull            # rosemary prints in places
    sys.setrecursionlimit(1100)     # about what a user has (Hypothesis raises it for its own laws)
    import inspect
    inspect.stack = _fast_stack
    R = Runner(L, tier, seed, shard, nshards, cur)
    lines = _watch_lines() if os.environ.get("PBT_COV") else None
    t0 = time.process_time()
    try:
        R.run()
        err = None
    except BaseException:
        err = traceback.format_exc()
    if lines is not None:
        with open(os.path.join(os.environ["PBT_COV"], "{}-{}-{}".format(L.prop, L.name, shard)), "w") as f:
            f.writelines("{}:{}\n".format(*x) for x in sorted(lines))
    conn.send_bytes(pickle.dumps({
        "law": L.name, "shard": shard, "evaluations": R.evaluations, "rejected": R.rejected,
        "nontrivial": R.nontrivial, "samples": R.samples, "fail": R.fail, "error": err,
        "cpu": time.process_time() - t0, "complete": R.complete,
        "first": R.first, "log": list(R.log) if R.fail else []}))
    conn.close()
    os._exit(0)


STALL = 240.0       # seconds of wall time without progress on one case


def run_property(prop, tier, seed):
    laws = LAWS[prop]
    tasks = []
    for L in laws.values():
        for s in range(L.shards):
            tasks.append((L, s))
    only = os.environ.get("PBT_LAW")
    if only:
        tasks = [t for t in tasks if t[0].name in only.split(",")]
    # Longest first is unknown; keep the order of definition.
    ctx = multiprocessing.get_context("fork")
    ncpu = int(os.environ.get("PBT_JOBS", 0)) or max(1, min(8, len(os.sched_getaffinity(0))))
    running = {}
    results = []
    found = False
    todo = list(tasks)
    while todo or running:
        while todo and len(running) < ncpu and not found:
            L, s = todo.pop(0)
            cur = Cur()
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_worker, args=(L, tier, seed, s, L.shards, cur, b))
            p.start()
            b.close()
            running[a] = [p, L, s, cur, -1, time.time()]
        if found:
            todo = []
        if not running:
            break
        ready = multiprocessing.connection.wait(list(running), timeout=1.0)
        for a in ready:
            p, L, s, cur, _, _ = running.pop(a)
            try:
                res = pickle.loads(a.recv_bytes())
            except EOFError:
                p.join()
                count, text = cur.get()
                res = {"law": L.name, "shard": s, "evaluations": count, "rejected": 0,
                       "nontrivial": set(), "samples": [], "fail": None, "cpu": 0.0, "complete": False,
                       "error": "worker died with status {} on case {}".format(p.exitcode, text[:500])}
            a.close()
            p.join()
            results.append(res)
            if res["fail"] is not None:
                found = True
        now = time.time()
        for a in list(running):
            ent = running[a]
            p, L, s, cur = ent[:4]
            count, text = cur.get()
            if count != ent[4]:
                ent[4] = count
                ent[5] = now
            elif now - ent[5] > STALL and count > 0:
                p.kill()
                p.join()
                running.pop(a)
                results.append({"law": L.name, "shard": s, "evaluations": count, "rejected": 0,
                                "nontrivial": set(), "samples": [], "cpu": STALL, "error": None, "complete": False,
                                "fail": (text, "no result after {} s on this case".format(STALL), True)})
                found = True
        if found:
            # One violation decides the run; the other laws may stop.
            deadline = time.time() + 3.0
            while running and time.time() < deadline:
                ready = multiprocessing.connection.wait(list(running), timeout=0.5)
                for a in ready:
                    p, L, s, cur, _, _ = running.pop(a)
                    try:
                        results.append(pickle.loads(a.recv_bytes()))
                    except EOFError:
                        pass
                    a.close()
                    p.join()
            for a in list(running):
                running[a][0].kill()
                running[a][0].join()
                running.pop(a)
    return results


# ---------------------------------------------------------------------------
# Known findings
# ---------------------------------------------------------------------------

def known_findings(prop):
    """Lines `finding: property=<id> law=<law> case=<literal> :: <text>` of KNOWN_FINDINGS."""
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for line in open(path):
            if not line.startswith("finding: property={} ".format(prop)):
                continue
            head, text = line.rstrip("\n").split(" :: ", 1)
            lawname = head.split(" law=", 1)[1].split(" ", 1)[0]
            case = ast.literal_eval(head.split(" case=", 1)[1])
            out.append((lawname, case, text))
    return out


def main(prop, tier, seed):
    t0 = time.time()
    results = run_property(prop, tier, seed)
    laws = LAWS[prop]
    per = {}
    for L in laws.values():
        rs = [r for r in results if r["law"] == L.name]
        if not rs:
            continue
        nt = set()
        for r in rs:
            nt |= r["nontrivial"]
        per[L.name] = {
            "evaluations": sum(r["evaluations"] for r in rs),
            "rejected": sum(r["rejected"] for r in rs),
            "distinct_nontrivial": len(nt),
            "rule": " ".join(L.rule.split()),
            "exhaustive": isinstance(L.gen, Each) and L.gen.whole and all(r["complete"] for r in rs),
            "completed": all(r["complete"] for r in rs),
            "cpu_s": round(sum(r["cpu"] for r in rs), 2),
        }
    samples = []
    for r in results:
        for s in r["samples"][:3]:
            samples.append({"law": r["law"], "case": s})
    fails = [r for r in results if r["fail"] is not None]
    errors = [r for r in results if r["error"]]
    status = 0
    nviol = 0
    for (lawname, case, text) in known_findings(prop):
        r = replay_case(prop, lawname, case)
        if r is not None:
            print("KNOWN-FINDING: property={} {} [law={} case={}]".format(prop, text, lawname, short(case)))
    if fails:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        fails.sort(key=lambda r: len(r["fail"][0]))
        r = fails[0]
        path = os.path.join(VERIF, "replays", "{}-{}.json".format(prop, r["law"]))
        rep = {"property": prop, "law": r["law"], "case": r["fail"][0], "message": r["fail"][1],
               "seed": seed, "tier": tier, "how": "python3-vt -m pbt replay " + path}
        rep.update(reproduction(prop, r))
        with open(path, "w") as f:
            json.dump(rep, f, indent=1)
        for r2 in fails:
            print("  law {}: {}\n    case: {}".format(r2["law"], r2["fail"][1], r2["fail"][0][:2000]))
        print("VIOLATION property={} replay={}".format(prop, path))
        status = 1
        nviol = len(fails)
    elif errors:
        status = 3
    for r in errors:
        sys.stderr.write("HARNESS ERROR in {} shard {}:\n{}\n".format(r["law"], r["shard"], r["error"]))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(p["evaluations"] for p in per.values()),
            "distinct_nontrivial": sum(p["distinct_nontrivial"] for p in per.values()),
            "rule": "Cases are generated per law (Hypothesis strategies, or complete enumeration of a finite "
                    "domain where exhaustive is true); a case counts as non-trivial by the rule given with its "
                    "law below; distinct by the text of the case within a law.",
            "samples": samples[:40],
            "laws": per,
        },
        "assumptions": ["CPython 3.12 integers, Fraction and itertools; sympy/networkx where a law names them as oracle"],
        "wall_s": round(time.time() - t0, 2),
        "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if os.environ.get("PBT_VERBOSE"):
        for n, p in per.items():
            print("  {:40s} eval {:8d} rej {:6d} nontriv {:8d} cpu {:7.2f}{}{}".format(
                n, p["evaluations"], p["rejected"], p["distinct_nontrivial"], p["cpu_s"],
                " exhaustive" if p["exhaustive"] else "", "" if p["completed"] else " (cut)"))
    print("{} {}: {} cases, {} distinct non-trivial, {:.1f} s, {}".format(
        prop, tier, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"],
        "VIOLATED" if status == 1 else ("harness error" if status else "held")))
    sys.stdout.flush()
    return status


def reproduction(prop, r):
    """
    Looks for a reproduction of a failure in a fresh process. A failure that needs the cases before it (state kept by
    the code under test between calls) gets the shortest history found: one earlier case if one is enough.
    """
    lawname = r["law"]
    if r["fail"][2] or _NO_SHRINK:
        return {}
    try:
        if replay_case(prop, lawname, ast.literal_eval(r["fail"][0])) is not None:
            return {}
        first = r.get("first")
        if first is None:
            return {}
        first = ast.literal_eval(first)
        msg = replay_case(prop, lawname, first)
        if msg is not None:
            return {"case": repr(first), "message": msg}
        log = [ast.literal_eval(t) for t in r["log"][:-1]]
        msg = replay_case(prop, lawname, first, log, 60)
        if msg is None:
            return {"note": "not reproduced in a fresh process"}
        out = {"case": repr(first), "message": msg, "history": [repr(c) for c in log]}
        end = time.time() + 20
        for c in reversed(log):
            if time.time() > end:
                break
            msg = replay_case(prop, lawname, first, [c])
            if msg is not None:
                out.update({"message": msg, "history": [repr(c)]})
                return out
        while len(log) > 1 and time.time() < end + 20:
            half = log[len(log)//2:]
            if replay_case(prop, lawname, first, half, 60) is None:
                break
            log = half
        out["history"] = [repr(c) for c in log]
        return out
    except Exception as e:
        return {"note": "reproduction failed: {}".format(short(e))}


def replay_case(prop, lawname, case, history=(), history_cpu=0):
    """Runs one case (after the cases of a history) in a fresh fork; returns the message of the violation, or None."""
    L = LAWS[prop][lawname]
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        signal.signal(signal.SIGVTALRM, _on_alarm)
        sys.stdout = open(os.devnull, "w")
        sys.setrecursionlimit(3000)
        msg = b""
        try:
            if history:
                signal.setitimer(signal.ITIMER_VIRTUAL, history_cpu or 4*L.cpu)
                for c in history:
                    random.seed(zlib.crc32(repr(c).encode()))
                    try:
                        evaluate(L, c)
                    except (Reject, Violation):
                        pass
            random.seed(zlib.crc32(repr(case).encode()))
            signal.setitimer(signal.ITIMER_VIRTUAL, L.cpu)
            evaluate(L, case)
        except Violation as e:
            msg = b"V" + str(e).encode()
        except Hang:
            msg = b"V" + "no result after {} s of CPU time".format(L.cpu).encode()
        except Reject:
            msg = b""
        except BaseException:
            msg = b"E" + traceback.format_exc().encode()
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        with os.fdopen(w, "wb") as f:
            f.write(msg)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if data[:1] == b"E":
        raise RuntimeError(data[1:].decode())
    return data[1:].decode() if data else None
