"""Driver shared by all properties: IR extraction, proof tasks, evidence."""
import glob, signal, json, os, re, sys, time, subprocess, hashlib, random, tempfile, shutil, traceback
from .term import *
from . import sym, lib, loops, solver, numeric
from .sym import *
from .sym import PI

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
CLANG = ["clang++", "-std=c++17", "-include", os.path.join(os.path.dirname(os.path.abspath(__file__)), "stdall.hpp"), "-I" + REPO + "/include", "-c", "-emit-llvm", "-O0", "-Xclang", "-disable-O0-optnone",
         "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-fno-discard-value-names", "-w"]


def scratch():
    d = os.environ.get("VF_SCRATCH")
    if not d:
        d = tempfile.mkdtemp(prefix="vf-")
        os.environ["VF_SCRATCH"] = d
        import atexit
        atexit.register(lambda: shutil.rmtree(d, ignore_errors=True))
    os.makedirs(d, exist_ok=True)
    return d


def irdump():
    p = os.path.join(VERIF, "build", "irdump")
    src = os.path.join(VERIF, "vf", "irdump", "irdump.cpp")
    if os.path.exists(p) and os.path.getmtime(p) >= os.path.getmtime(src):
        return p
    os.makedirs(os.path.dirname(p), exist_ok=True)
    fl = subprocess.run(["llvm-config-18", "--cxxflags"], capture_output=True, text=True).stdout.replace("-fno-exceptions", "").split()
    t = p + ".%d" % os.getpid()
    subprocess.run(["g++", "-O1", "-std=c++17", src, "-o", t] + fl + ["-std=c++17", "-L/usr/lib/llvm-18/lib", "-lLLVM-18"], check=True, capture_output=True)
    os.rename(t, p)
    return p


class BuildError(Exception):
    pass


def load_tu(name, defines=()):
    d = scratch()
    src = os.path.join(VERIF, "vf", "tu", name + ".cpp")
    tag = name + "".join("_" + re.sub(r"\W", "", x) for x in defines) + ".%d" % os.getpid()
    ll = os.path.join(d, tag + ".bc")
    r = subprocess.run(CLANG + ["-D" + x for x in defines] + [src, "-o", ll], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("%s: %s" % (name, r.stderr[-3000:]))
    js = os.path.join(d, tag + ".json")
    with open(js, "w") as f:
        r = subprocess.run([irdump(), ll], stdout=f, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise BuildError("irdump: " + r.stderr[-2000:])
    h = hashlib.sha256(open(ll, "rb").read()).hexdigest()
    m = json.load(open(js))
    m["_sha"] = h
    os.unlink(js)
    os.unlink(ll)
    return m


def find_ite(t):
    """an innermost-first ite in t"""
    best = None
    for x in subterms(t):
        if x.op == "ite" and (best is None or x.id < best.id):
            best = x
    return best


def trig_signs(eng, st, b):
    """sign facts for cos/sin of b when b is a known fraction of pi"""
    key = ("signs", b)
    if key in st.facts:
        return
    r = rdiv(b, PI)
    if PI in atoms(r):
        return
    c, s = app("cos", (b,), "R"), app("sin", (b,), "R")
    half = R(Fraction(1, 2))
    gt0 = entails_(st, lt(R(0), r))
    lt1 = entails_(st, lt(r, R(1)))
    if gt0 and lt1:
        st.assume(lt(R(0), s))
        if entails_(st, lt(r, half)):
            st.assume(lt(R(0), c))
        elif entails_(st, lt(half, r)):
            st.assume(lt(c, R(0)))
        elif entails_(st, eq(r, half)):
            st.assume(eq(c, R(0)))
            st.assume(eq(s, R(1)))


def entails_(st, g):
    return solver.entails(st.facts, g, 2000)


def sqrt_norm(eng, st, arg):
    """sqrt(1-cos^2 b) -> sin b when sin b >= 0"""
    for b in eng.trigs.get("trigbase", []):
        c, s = app("cos", (b,), "R"), app("sin", (b,), "R")
        if (c in atoms(arg) or s in atoms(arg)):
            for trg, v in ((sub(R(1), mul(c, c)), s), (mul(s, s), s), (sub(R(1), mul(s, s)), c), (mul(c, c), c)):
                if ring_equal(arg, trg):
                    if entails_(st, ge(v, R(0))):
                        return v
                    if entails_(st, le(v, R(0))):
                        return neg(v)
    return None


def trig_norm(eng, st, t):
    """rewrite all cos/sin applications to the engine's canonical arguments"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "app" and x.args[0] in ("cos", "sin"):
            r = eng.trig(st, x.args[0], go(x.args[1]))
            for a in atoms(r):
                if a.op == "app" and a.args[0] in ("cos", "sin"):
                    trig_signs(eng, st, a.args[1])
        elif x.op == "app" and x.args[0] in ("sqrt", "log", "exp", "pow"):
            if x.args[0] == "sqrt":
                r = sqrt_norm(eng, st, go(x.args[1]))
                if r is not None:
                    memo[x] = r
                    return r
            r = eng.math(st, x.args[0], [go(a) for a in x.args[1:]])
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


class Task:
    """one verified function / contract"""

    def __init__(self, ctx, name):
        self.ctx, self.name = ctx, name


class OutOfTime(BaseException):
    pass


class Ctx:
    def __init__(self, pid, seed=1, tier="quick"):
        self.pid, self.seed, self.tier = pid, seed, tier
        self.rng = random.Random(seed)
        quick = tier == "quick"
        self.task_limit = 240.0 if quick else 1800.0
        self.deadline = time.time() + (330.0 if quick else 3000.0)
        self.tus = {}
        self.functions = []       # functions under contract
        self.obligations = []     # all obligations
        self.unsupported = []
        self.refuted = []         # numerically/concretely refuted obligations
        self.unproved = []        # failed, not refuted
        self.assumptions = []
        self.lemmas = []
        self.loops = []
        self.builtins = {}
        self.contracts_used = {}
        self.engines = []
        self.notes = []
        self.executed = {}
        self.t0 = time.time()
        self.reach = []
        self.queue, self.joined = [], []
        self.norm_hook = None     # property-specific rewriting of goals to a canonical form

    def tu(self, name):
        if name not in self.tus:
            nm, *df = name.split(":")
            self.tus[name] = load_tu(nm, df)
        return self.tus[name]

    def preload(self, names):
        """compile several verification units in parallel"""
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            for n, r in zip(names, ex.map(lambda n: load_tu(n.split(":")[0], n.split(":")[1:]), names)):
                self.tus[n] = r

    def engine(self, tu, contracts=None, builtins=(), **kw):
        lib.STRUCTS.clear()
        lib.STRUCTS.update(self.tu(tu).get("structs", {}))
        e = loops.Eng(self.tu(tu), list(builtins) + lib.BUILTINS, contracts or {}, **kw)
        e.deadline = time.time() + (200 if self.tier == "quick" else 500)
        self.engines.append(e)
        return e

    def lean(self, names):
        """theorems of lean/Lemmas.lean the argument needs: checked by the Lean kernel now"""
        import shutil
        exe = shutil.which("lean") or next((p for p in glob.glob("/app/lean4-*/build/release/stage1/bin/lean")), None)
        src = open(os.path.join(VERIF, "lean", "Lemmas.lean")).read()
        bad = [w for w in ("sorry", "axiom ", "native_decide", "unsafe ") if w in src]
        out = ""
        t0 = time.time()
        if exe and not bad:
            d = tempfile.mkdtemp(prefix="vflean.")
            try:
                with open(os.path.join(d, "L.lean"), "w") as fh:
                    fh.write(src + "".join("\n#print axioms %s" % n for n in names) + "\n")
                r = subprocess.run([exe, os.path.join(d, "L.lean")], capture_output=True, text=True, timeout=120, cwd=d)
                out = (r.stdout + r.stderr) if r.returncode == 0 else ""
            except (OSError, subprocess.SubprocessError) as e:
                out = ""
            finally:
                shutil.rmtree(d, ignore_errors=True)
        self.lean_obligations = getattr(self, "lean_obligations", 0) + len(names)
        rep = []
        for n in names:
            m = re.search(r"'%s' (does not depend on any axioms|depends on axioms: \[([^\]]*)\])" % re.escape(n), out)
            ok = bool(m) and all(a.strip() in ("propext", "Quot.sound", "Classical.choice", "") for a in (m.group(2) or "").split(","))
            rep.append({"theorem": n, "checked": ok, "axioms": m.group(2) or "none" if m else None})
            if ok:
                self.lean_proved = getattr(self, "lean_proved", 0) + 1
            else:
                self.assume("arithmetic lemma not machine-checked in this run (Lean not available): " + n)
        self.lean_report = getattr(self, "lean_report", []) + rep
        self.extra_coverage = dict(getattr(self, "extra_coverage", {}), lean_seconds=round(time.time() - t0, 1))

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    # ------------------------------------------------------------- obligations
    def check(self, eng, st, goal, label, kind="post"):
        """discharge goal under st, splitting on conditional terms"""
        todo = [(st, goal)]
        ok = True
        n = 0
        while todo:
            s, g = todo.pop()
            n += 1
            if n > 400:
                eng.oblig(s, g, label, kind)
                continue
            if not eng.mute:
                eng.mute += 1
                try:
                    g = resolve_sel(s, g)
                finally:
                    eng.mute -= 1
            x = find_ite(g)
            if x is not None:
                c = x.args[0]
                d = s.decide(c)
                if d is True:
                    todo.append((s, subst(g, {x: x.args[1]})))
                elif d is False:
                    todo.append((s, subst(g, {x: x.args[2]})))
                else:
                    s2 = s.fork()
                    s.assume(c)
                    s2.assume(not_(c))
                    if eng.feasible(s):
                        todo.append((s, subst(g, {x: x.args[1]})))
                    if eng.feasible(s2):
                        todo.append((s2, subst(g, {x: x.args[2]})))
                continue
            g = idiv_norm(s, g)
            g = trig_norm(eng, s, g)
            if self.norm_hook:
                g = self.norm_hook(eng, s, g)
            ok = eng.oblig(s, g, label, kind) and ok
        return ok

    def run(self, name, f):
        """run one contract verification; collects unsupported constructs"""
        t = time.time()
        n0 = sum(len(e.obligations) for e in self.engines)
        lim = max(5.0, min(self.task_limit, self.deadline - t))

        def late(*_):
            raise OutOfTime()
        old = signal.signal(signal.SIGALRM, late)
        signal.setitimer(signal.ITIMER_REAL, lim, 5)
        try:
            try:
                f()
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, old)
                for e in self.engines:
                    for o in e.obligations:
                        o.where = o.where or name
            status = "verified"
        except OutOfTime:
            self.unsupported.append({"function": name, "reason": "time limit of %d s" % lim})
            status = "out of reach: time limit of %d s" % lim
        except Unsupported as e:
            self.unsupported.append({"function": name, "reason": str(e)[:500]})
            status = "out of reach: " + str(e)[:300]
            if os.environ.get("VF_DEBUG"):
                traceback.print_exc()
        except (RecursionError, KeyError, IndexError, AttributeError, TypeError, AssertionError, ValueError) as e:
            self.unsupported.append({"function": name, "reason": "internal: %s %s" % (type(e).__name__, str(e)[:300])})
            status = "out of reach: internal %s" % type(e).__name__
            if os.environ.get("VF_DEBUG"):
                traceback.print_exc()
        n1 = sum(len(e.obligations) for e in self.engines)
        self.functions.append({"contract": name, "status": status, "obligations": n1 - n0, "seconds": round(time.time() - t, 2)})
        if os.environ.get("VF_DEBUG"):
            print("  [%s] %s %d obligations %.1fs" % (name, status, n1 - n0, time.time() - t), flush=True)

    # ---------------------------------------------------------------- parallel tasks
    def spawn(self, name, f):
        """queue a contract verification for a worker process (see join)"""
        self.queue.append((name, f))

    def join(self, workers=8):
        import pickle, select
        q, self.queue = self.queue, []
        if os.environ.get("VF_SERIAL"):
            for n, f in q:
                self.run(n, f)
            return
        running, res = {}, {}
        k = 0
        while k < len(q) or running:
            while k < len(q) and len(running) < workers:
                r, w = os.pipe()
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        os.close(r)
                        data = self.child(*q[k])
                        with os.fdopen(w, "wb") as fh:
                            fh.write(data)
                        sys.stdout.flush()
                        code = 0
                    except BaseException:
                        if os.environ.get("VF_DEBUG"):
                            traceback.print_exc()
                    finally:
                        os._exit(code)
                os.close(w)
                running[r] = (k, pid, [])
                k += 1
            ready, _, _ = select.select(list(running), [], [])
            for r in ready:
                b = os.read(r, 1 << 20)
                if b:
                    running[r][2].append(b)
                    continue
                i, pid, bufs = running.pop(r)
                os.close(r)
                os.waitpid(pid, 0)
                res[i] = b"".join(bufs)
        for i in range(len(q)):
            if not res.get(i):
                self.unsupported.append({"function": q[i][0], "reason": "worker process failed"})
                self.functions.append({"contract": q[i][0], "status": "out of reach: worker process failed", "obligations": 0, "seconds": 0})
                continue
            d = pickle.loads(res[i])
            self.joined += d["obligations"]
            self.loops += d["loops"]
            for nm in ("functions", "unsupported", "notes", "assumptions"):
                lst = getattr(self, nm)
                lst += [x for x in d[nm] if nm != "assumptions" or x not in lst]
            for nm in ("builtins", "contracts_used", "executed"):
                s = getattr(self, nm)
                for a, v in d[nm].items():
                    s[a] = s.get(a, 0) + v
            for a, v in d["stat"].items():
                solver.STAT[a] = solver.STAT.get(a, 0) + v

    def child(self, name, f):
        import pickle
        sys.setrecursionlimit(200000)
        n0 = {nm: len(getattr(self, nm)) for nm in ("functions", "unsupported", "notes", "assumptions", "loops")}
        st0 = dict(solver.STAT)
        self.engines, self.builtins, self.contracts_used, self.executed = [], {}, {}, {}
        self.run(name, f)
        obs, loops_ = [], []
        for e in self.engines:
            obs += e.obligations
            loops_ += e.loops_info
            for d, s in ((e.used_builtins, self.builtins), (e.used_contracts, self.contracts_used), (e.executed, self.executed)):
                for k, v in d.items():
                    s[k] = s.get(k, 0) + v
        d = {"obligations": obs, "loops": loops_, "builtins": self.builtins, "contracts_used": self.contracts_used, "executed": self.executed,
             "stat": {k: v - st0.get(k, 0) for k, v in solver.STAT.items() if isinstance(v, (int, float))}}
        for nm in ("functions", "unsupported", "notes", "assumptions"):
            d[nm] = getattr(self, nm)[n0[nm]:]
        return pickle.dumps(d, 4)

    def collect(self):
        hints, rhints = set(), set()
        self.obligations += self.joined
        for e in self.engines:
            for o in e.obligations:
                self.obligations.append(o)
            self.loops += e.loops_info
            for d, s in ((e.used_builtins, self.builtins), (e.used_contracts, self.contracts_used), (e.executed, self.executed)):
                for k, v in d.items():
                    s[k] = s.get(k, 0) + v
        nref = 0
        for o in self.obligations:
            if o.status != "failed":
                continue
            self.hints_of(o, hints, rhints)
            r, a = ("skipped", None)
            if nref < 40:
                nref += 1
                r, a = numeric.refute(o.facts, o.goal, self.rng)
            if r == "refuted":
                for v in a.values():
                    if isinstance(v, int) and not isinstance(v, bool) and 0 <= v < 10 ** 7:
                        hints.add(v)
                if numeric.tainted(list(o.facts) + [o.goal]):
                    r = "refuted only for a value of an uninterpreted loop variable"
            rec = {"obligation": o.label, "kind": o.kind, "where": o.where, "goal": show(o.goal)[:1500], "facts": [show(f)[:300] for f in o.facts][:60],
                   "assignment": a if r == "refuted" else None, "sampling": r}
            if o.kind != "invariant" and r == "refuted":
                self.refuted.append(rec)
            else:
                self.unproved.append(rec)
        self.hints = sorted(hints)[:200]
        self.rhints = sorted(rhints)[:200]
        self.retry()

    def retry(self, budget=150, cap=48, factor=10):
        """obligations that were neither discharged nor refuted get ten times the solver
        time; what is still open afterwards is reported (strict)"""
        self.strict = []
        todo = []
        idx = {}
        for o in self.obligations:
            if o.status == "failed":
                idx.setdefault((o.label, o.kind, show(o.goal)[:1500]), []).append(o)
        for r in self.unproved:
            for o in idx.get((r["obligation"], r["kind"], r["goal"]), [])[:1]:
                todo.append((r, o))
        # one per label first
        seen, first, rest = set(), [], []
        for r, o in todo:
            (rest if o.label in seen else first).append((r, o))
            seen.add(o.label)
        todo = (first + rest)[:cap]
        if not todo:
            return
        t_end = min(time.time() + budget, self.deadline + 120)

        def one(r, o):
            if o.goal is FALSE and not o.facts:
                return False
            t = 10000 * factor // 4 if o.goal is not FALSE else 10000
            return solver.entails(list(o.facts), o.goal, t)
        import signal
        running, done = {}, {}
        k = 0
        while k < len(todo) or running:
            while k < len(todo) and len(running) < 8 and time.time() < t_end:
                pid = os.fork()
                if pid == 0:
                    signal.alarm(100)
                    rc = 2
                    try:
                        rc = 0 if one(*todo[k]) else 1
                    finally:
                        os._exit(rc)
                running[pid] = k
                k += 1
            if not running:
                break
            for p in list(running):
                pid, st = os.waitpid(p, os.WNOHANG)
                if pid:
                    done[running.pop(p)] = os.waitstatus_to_exitcode(st)
            time.sleep(0.02)
        proved = set()
        for i, rc in done.items():
            r, o = todo[i]
            if rc == 0:
                o.status, o.backend = "proved", "z3"
                proved.add(id(r))
            else:
                r["retried"] = True
                self.strict.append(r)
        self.unproved = [r for r in self.unproved if id(r) not in proved]
        # an invariant that was inferred and is not inductive says that the inference fell short,
        # not that the code is wrong: the contract is out of reach, nothing it shows counts
        short = {}
        for r in self.strict:
            if r["kind"] == "invariant":
                short.setdefault(r["where"], r["obligation"])
        if short:
            self.strict = [r for r in self.strict if r["where"] not in short]
            for w, lab in short.items():
                self.unsupported.append({"function": w, "reason": "no inductive invariant found: " + lab[:200]})
            for f in self.functions:
                if f.get("contract") in short:
                    f["status"] = "out of reach: no inductive invariant found"

    def hints_of(self, o, hints, rhints):
        """constants of a failed obligation and integer models of its path: where to
        search for a failing input of the real code"""
        for t in list(o.facts) + [o.goal]:
            for x in subterms(t):
                if x.op == "poly":
                    for m, c in x.args:
                        if x.sort == "I" and abs(c) < 10 ** 7:
                            hints.update(v for v in (abs(c) - 1, abs(c), abs(c) + 1, abs(c) + 2) if v >= 0)
                        elif x.sort == "R" and abs(c) < 10 ** 6:
                            rhints.update(float(c) * k for k in (1, -1))
                elif x.op == "const" and x.sort == "R":
                    rhints.add(float(x.args[0]))
        if len(hints) < 4000:
            for vals, av in numeric.int_models(list(o.facts), self.rng, want=6, goal=o.goal):
                for v in list(vals.values()) + list(av.values()):
                    if 0 <= v < 10 ** 7:
                        hints.update((v, v + 1))


# ------------------------------------------------------------------ callee contracts
def rule_elems(name, n, f):
    """contents given by a closed form f(n, i) (reals)"""
    return ESpec(name, lambda st, a, idx, off, ty: f(i2r(a[0]), i2r(idx)) if off == 0 else UNDEF, (n,))


def contract_generate(name, x, w, nargs=1):
    """contract of quadrature_traits<..>::generate(n): tuple of n points and weights"""
    def c(eng, st, args, f, path):
        out, n = args[0], args[1]
        lay = {0: "double"}
        p = Vec(n, rule_elems(name + ".points", n, x), 8, lay)
        v = Vec(n, rule_elems(name + ".weights", n, w), 8, lay)
        st.write(out.plus(24), p)
        st.write(out, v)
        return [Outcome(st, "ret", None)]
    return c
