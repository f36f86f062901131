"""Discharging obligations: ring normaliser, z3, cvc5 (cross-check)."""
import time, hashlib, subprocess, os
import z3
from .term import *

STAT = {"z3_queries": 0, "z3_time": 0.0, "cache_hits": 0, "ring": 0, "cvc5_queries": 0, "cvc5_time": 0.0}
z3.set_param("memory_max_size", 6000)

_fun = {}
_axcache = {}


def _fn(name, argsorts, sort):
    key = (name, argsorts, sort)
    f = _fun.get(key)
    if f is None:
        zs = {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort()}
        f = z3.Function(name, *[zs[a] for a in argsorts], zs[sort])
        _fun[key] = f
    return f


def _inv(a):
    return mk("recip", (a,), "R")


def to_z3(t):
    if t._z3 is not None:
        return t._z3
    op = t.op
    if op == "const":
        r = z3.IntVal(t.args[0]) if t.sort == "I" else z3.RealVal(str(Fraction(t.args[0])))
    elif op == "var":
        r = {"I": z3.Int, "R": z3.Real, "B": z3.Bool}[t.sort](t.args[0])
    elif op == "true":
        r = z3.BoolVal(True)
    elif op == "false":
        r = z3.BoolVal(False)
    elif op == "poly":
        parts = []
        for m, c in t.args:
            fs = []
            if c != 1 or not m:
                fs.append(z3.IntVal(c) if t.sort == "I" else z3.RealVal(str(Fraction(c))))
            for a, e in m:
                z = to_z3(a if e > 0 else _inv(a))
                fs.extend([z] * abs(e))
            p = fs[0]
            for x in fs[1:]:
                p = p * x
            parts.append(p)
        r = parts[0] if len(parts) == 1 else z3.Sum(parts)
    elif op == "app":
        args = t.args[1:]
        if not args:
            r = z3.Const(t.args[0], z3.IntSort() if t.sort == "I" else z3.RealSort() if t.sort == "R" else z3.BoolSort())
        else:
            f = _fn(t.args[0], tuple(a.sort for a in args), t.sort)
            r = f(*[to_z3(a) for a in args])
    elif op == "i2r":
        r = z3.ToReal(to_z3(t.args[0]))
    elif op == "recip":
        r = z3.Real("recip!%d" % t.id)
    elif op == "mul":
        r = to_z3(t.args[0]) * to_z3(t.args[1])
    elif op == "idiv":
        a, b = t.args
        if b.op == "const":
            r = to_z3(a) / to_z3(b)
        else:
            r = z3.Int("idiv!%d" % t.id)
    elif op == "divzero":
        r = z3.Real("divzero!%d" % t.id)
    elif op == "ite":
        r = z3.If(to_z3(t.args[0]), to_z3(t.args[1]), to_z3(t.args[2]))
    elif op == "not":
        r = z3.Not(to_z3(t.args[0]))
    elif op == "and":
        r = z3.And([to_z3(a) for a in t.args])
    elif op == "le0":
        r = to_z3(t.args[0]) <= 0
    elif op == "lt0":
        r = to_z3(t.args[0]) < 0
    elif op == "eq0":
        r = to_z3(t.args[0]) == 0
    else:
        raise ValueError(op)
    t._z3 = r
    return r


def side_axioms(ts):
    """definitional axioms for reciprocals and symbolic quotients"""
    out = {}
    seen = set()
    for t in ts:
        r = _sidecache.get(t)
        if r is None:
            r = _sidecache[t] = _side1(t)
        out.update(r)
    return list(out.values())


_sidecache = {}


def _side1(t):
    out = {}
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "poly":
            for m, c in x.args:
                for a, e in m:
                    st.append(a)
                    if e < 0:
                        st.append(_inv(a))
        else:
            st.extend(children(x))
        if x.op == "recip":
            p = x.args[0]
            # plain z3 product, bypassing the canonical form (recip*p must not fold)
            out[x.id] = z3.Implies(to_z3(p) != 0, to_z3(x) * to_z3(p) == 1)
        elif x.op == "idiv" and x.args[1].op != "const":
            a, b = map(to_z3, x.args)
            q = to_z3(x)
            out[x.id] = z3.Implies(b > 0, z3.And(q * b <= a, a < q * b + b))
    return out


def has_real(t, memo={}):
    r = memo.get(t)
    if r is None:
        r = any(x.sort == "R" for x in subterms(t))
        memo[t] = r
    return r


_qcache = {}


def simple_ok(facts):
    return False




def check_sat(facts, timeout=4000, want_model=False):
    """facts: list of T.  returns 'sat'/'unsat'/'unknown', model"""
    facts = [f for f in facts if f is not TRUE]
    for f in facts:
        if f is FALSE:
            return "unsat", None
    key = frozenset(facts)
    if not want_model:
        r = _qcache.get(key)
        if r is not None and (r != "unknown"):
            STAT["cache_hits"] += 1
            return r, None
    s = z3.SimpleSolver() if simple_ok(facts) else z3.Solver()
    # the limit is a deterministic amount of work (about the given milliseconds); wall time only stops it on an overloaded machine
    s.set("rlimit", timeout * 2000)
    s.set("timeout", timeout * 4)
    cref = s.ctx.ref()
    for f in facts:
        z3.Z3_solver_assert(cref, s.solver, to_z3(f).as_ast())
    for a in side_axioms(facts):
        s.add(a)
    t0 = time.time()
    r = str(s.check())
    dt = time.time() - t0
    STAT["z3_queries"] += 1
    STAT["z3_time"] += dt
    if os.environ.get("VF_SLOW") and dt > float(os.environ["VF_SLOW"]):
        print("SLOW %.2fs %s\n   " % (dt, r) + "\n   ".join(show(f) for f in facts))
    _qcache[key] = r
    m = None
    if r == "sat" and want_model:
        m = s.model()
    return r, m


def relevant(facts, goal):
    """facts connected to the goal through shared atoms"""
    want = set(atoms(goal))
    rest = list(facts)
    out = []
    changed = True
    while changed:
        changed = False
        keep = []
        for f in rest:
            a = atoms(f)
            if not a or (a & want):
                out.append(f)
                want |= a
                changed = True
            else:
                keep.append(f)
        rest = keep
    return out


def int_bounds(facts):
    """bounds of atoms from single-atom facts: atom -> (lo, hi)"""
    b = {}
    for f in facts:
        if f.op == "le0" and f.args[0].sort == "I":
            d = pdict(f.args[0])
            ms = [m for m in d if m]
            if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
                a, c, k = ms[0][0][0], d[ms[0]], d.get((), 0)
                lo, hi = b.get(a, (None, None))
                if c > 0:
                    v = (-k) // c
                    hi = v if hi is None else min(hi, v)
                else:
                    v = _ceil(k, -c)
                    lo = v if lo is None else max(lo, v)
                b[a] = (lo, hi)
        elif f.op == "eq0" and f.args[0].sort == "I":
            d = pdict(f.args[0])
            ms = [m for m in d if m]
            if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
                a, c, k = ms[0][0][0], d[ms[0]], d.get((), 0)
                if k % c == 0:
                    b[a] = (-k // c, -k // c)
        elif f.op == "and":
            for a2, (l2, h2) in int_bounds(f.args).items():
                lo, hi = b.get(a2, (None, None))
                if l2 is not None:
                    lo = l2 if lo is None else max(lo, l2)
                if h2 is not None:
                    hi = h2 if hi is None else min(hi, h2)
                b[a2] = (lo, hi)
    return b


def _ceil(k, c):
    # smallest integer v with c*v >= k
    return -((-k) // c)


def interval(t, b):
    """interval of an Int term given atom bounds (None = unbounded)"""
    lo = hi = 0
    for m, c in pdict(t).items():
        l = h = 1
        for a, e in m:
            al, ah = b.get(a, (None, None))
            if a.op == "idiv" and a.args[1].op == "const":
                xl, xh = interval(a.args[0], b)
                n = a.args[1].args[0]
                al2 = xl // n if xl is not None else None
                ah2 = xh // n if xh is not None else None
                al = al2 if al is None else (al if al2 is None else max(al, al2))
                ah = ah2 if ah is None else (ah if ah2 is None else min(ah, ah2))
            elif a.op == "ite":
                xl, xh = interval(a.args[1], b)
                yl, yh = interval(a.args[2], b)
                al = None if xl is None or yl is None else min(xl, yl)
                ah = None if xh is None or yh is None else max(xh, yh)
            for _ in range(e):
                if l is None or al is None or l < 0 or al < 0:
                    # only non-negative products are tracked
                    if l == 1 and h == 1:
                        l, h = al, ah
                    else:
                        l = h = None
                        break
                else:
                    l, h = l * al, (None if h is None or ah is None else h * ah)
        if c < 0:
            l, h = h, l
        lo = None if lo is None or l is None else lo + c * l
        hi = None if hi is None or h is None else hi + c * h
    return lo, hi


_dcache = {}


def elim(facts, goal):
    """(facts, goal) with integer variables removed through known linear equations x = e, or None"""
    done = False
    for _ in range(4):
        best = None
        for f in facts:
            if f.op == "eq0" and f.args[0].sort == "I" and f.args[0].op == "poly":
                for m, c in f.args[0].args:
                    if len(m) == 1 and m[0][1] == 1 and c in (1, -1) and m[0][0].op == "var":
                        x = m[0][0]
                        e = sub(x, f.args[0]) if c == 1 else add(x, f.args[0])
                        if not any(y is x for y in subterms(e)):
                            best = (f, x, e)
                            break
            if best:
                break
        if not best:
            break
        f0, x, e = best
        facts = [subst(f, {x: e}) for f in facts if f is not f0]
        goal = subst(goal, {x: e})
        done = True
    return (facts, goal) if done else None


_heavy = {}


def heavy(t):
    """real formulas of high degree over many terms: not worth a branch decision"""
    r = _heavy.get(t)
    if r is None:
        n = d = 0
        for x in subterms(t):
            n += 1
            if x.op == "poly" and x.sort == "R":
                d = max(d, max((sum(abs(e) for a, e in m) for m, c in x.args), default=0))
        r = _heavy[t] = d > 10 and n > 18
    return r


def quick(facts, goal, timeout):
    """entails, for branch decisions: high-degree facts are left out (a weaker question; an undecided branch is explored both ways)"""
    if goal in facts:
        return True
    if goal is not FALSE and heavy(goal):
        return False
    return entails([f for f in facts if not heavy(f)], goal, timeout)


def entails(facts, goal, timeout=4000):
    """True if facts |= goal (proved), False if not proved."""
    if goal is TRUE:
        return True
    if goal in facts:
        return True
    if goal.op == "and":
        return all(entails(facts, g, timeout) for g in goal.args)
    if goal is FALSE:
        r, _ = check_sat([f for f in facts if not has_real(f)] , timeout)
        if r == "unsat":
            return True
        r, _ = check_sat(facts, timeout)
        return r == "unsat"
    ng = not_(goal)
    if ng in facts:
        # consistent facts cannot prove it
        pass
    isreal = has_real(goal)
    if not isreal:
        fs = [f for f in facts if not has_real(f)]
        b = int_bounds(fs)
        if goal.op == "le0":
            lo, hi = interval(goal.args[0], b)
            if hi is not None and hi <= 0:
                return True
        fs = relevant(fs, goal)
        r, _ = check_sat(fs + [ng], timeout)
        return r == "unsat"
    ig = intify(facts, goal, timeout)
    if ig is not None and entails(facts, ig, timeout):
        return True
    # real goal: ring first
    if goal.op == "eq0":
        n = clear_recips(goal.args[0])
        if n.op == "const" and n.args[0] == 0:
            STAT["ring"] += 1
            return True
    fs = relevant(facts, goal)
    r, _ = check_sat(fs + [ng], timeout)
    if r == "unsat":
        return True
    if r == "unknown":
        r2 = purified(fs + [ng], timeout)
        return r2 == "unsat"
    return False


def intify(facts, goal, timeout):
    """real comparison of rational expressions in integers -> integer comparison"""
    neg_ = False
    g = goal
    if g.op == "not" and g.args[0].op == "eq0":
        g, neg_ = g.args[0], True
    if g.op not in ("le0", "lt0", "eq0") or g.args[0].sort != "R":
        return None
    n, d = num_den(g.args[0])
    n2, d2 = r2i(n), r2i(d)
    if n2 is None or d2 is None:
        return None
    n2, d2 = n2[0], d2[0]
    if d2.op != "const":
        if not entails(facts, not_(le0(d2)), timeout):
            return None
    elif d2.args[0] < 0:
        return None
    r = {"le0": le0, "lt0": lt0, "eq0": eq0}[g.op](n2)
    return not_(r) if neg_ else r


def purify(t, memo):
    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in ("app",) and x.sort in ("R", "I"):
            r = var("pur!%d" % x.id, "R" if x.sort == "R" else "R")
        elif x.op == "i2r":
            r = var("pur!%d" % x.id, "R")
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


def purified(facts, timeout):
    """pure real relaxation: applications and integer casts become reals
    (sound for unsat: every model of the original is one of the relaxation)."""
    memo = {}
    out = []
    for f in facts:
        if f.op in ("le0", "lt0", "eq0") and f.args[0].sort == "I":
            # integers linear facts: relax to reals through i2r
            g = {"le0": le0, "lt0": lt0, "eq0": eq0}[f.op](i2r(f.args[0]))
            out.append(purify(g, memo))
        elif f.op in ("not",) and f.args[0].op == "eq0" and f.args[0].args[0].sort == "I":
            out.append(purify(not_(eq0(i2r(f.args[0].args[0]))), memo))
        else:
            try:
                ok = all(x.sort != "I" or x.op in ("const",) for x in subterms(purify(f, memo)))
            except Exception:
                ok = False
            if ok:
                out.append(purify(f, memo))
    s = z3.Tactic("qfnra-nlsat").solver()
    s.set("rlimit", timeout * 2000)
    s.set("timeout", timeout * 4)
    for f in out:
        s.add(to_z3(f))
    for a in side_axioms(out):
        s.add(a)
    t0 = time.time()
    try:
        r = str(s.check())
    except z3.Z3Exception:
        r = "unknown"
    STAT["z3_queries"] += 1
    STAT["z3_time"] += time.time() - t0
    return r


def smt2(facts):
    s = z3.Solver()
    for f in facts:
        s.add(to_z3(f))
    for a in side_axioms(facts):
        s.add(a)
    return s.to_smt2()


def cvc5_check(facts, timeout=10):
    txt = "(set-logic ALL)\n" + smt2(facts)
    t0 = time.time()
    try:
        p = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % (timeout * 1000), "-"], input=txt, capture_output=True, text=True, timeout=timeout + 5)
        r = p.stdout.strip().split("\n")[0] if p.stdout.strip() else "unknown"
    except Exception:
        r = "unknown"
    STAT["cvc5_queries"] += 1
    STAT["cvc5_time"] += time.time() - t0
    return r
