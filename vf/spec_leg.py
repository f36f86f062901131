"""Contracts of the Legendre evaluator and of the Gauss-Legendre and Gauss-Lobatto rules (C02)."""
from .term import *
from .sym import *
from . import solver
import os
from .prove import *
from .spec_prim import sizes, q

EVAL = "std::tuple<double, double, double> IntegratorXX::eval_Pn<double>(double, unsigned long)"
EPS = R(Fraction(1, 1 << 52))


def P(k, x):
    """P_k(x); P_0 = 1, the rest fixed by the recurrence (rec)"""
    return app("legP", (k, x), "R")


def rec(k, x):
    """the three-term recurrence instance defining P_k, for k >= 1"""
    K = i2r(k)
    two = mul(sub(scale(K, 2), R(1)), mul(x, P(sub(k, I(1)), x)))
    return implies(ge(k, I(1)), and_(eq(P(k, x), rdiv(sub(two, mul(sub(K, R(1)), P(sub(k, I(2)), x))), K)),
                                     eq(mul(K, P(k, x)), sub(two, mul(sub(K, R(1)), P(sub(k, I(2)), x))))))


def base(x):
    # P_{-1} is multiplied by zero in the recurrence; the evaluator reports 0 for it
    return [eq(P(I(0), x), R(1)), eq(P(I(-1), x), R(0)), eq(P(I(1), x), x)]


def dP(n, x, p, pm1):
    """(x^2-1) P_n' = n (x P_n - P_{n-1})"""
    return rdiv(mul(i2r(n), sub(mul(x, p), pm1)), sub(mul(x, x), R(1)))


def cand_for(x):
    def cand(e, s0, K, v0, h):
        if h.sort != "R":
            return []
        ax = base(x) + [rec(add(K, I(d)), x) for d in (0, 1, 2)]
        return [(P(add(K, I(d)), x), ax) for d in (0, -1, 1, -2, 2)]
    return cand


def evaluator(ctx):
    """eval_Pn against its contract; the contracts callers may use"""
    got = {}

    def go():
        eng = ctx.engine("prim")
        st = State(eng)
        n, x = var("n", "I"), var("x", "R")
        sizes(st, n)
        st.assume(not_(eq(mul(x, x), R(1))))
        for a in base(x):
            st.assume(a)
        eng.cands.append(cand_for(x))
        st.mem["out"] = {}
        k = 0
        for o in eng.call(st, "vf_pn", [x, n, Ptr("out", (0,))], "eval_Pn"):
            if o.kind != "ret":
                eng.fail(o.st, "eval_Pn: returns normally (%s)" % o.kind)
                continue
            k += 1
            s = o.st
            p, dp, pm1 = (s.read(Ptr("out", (8 * i,)), "double") for i in range(3))
            if not all(isinstance(v, T) for v in (p, dp, pm1)):
                raise Unsupported("results of eval_Pn")
            for a in base(x):
                s.assume(a)
            ctx.check(eng, s.fork(), eq(p, P(n, x)), "eval_Pn: first result is P_n(x) of the three-term recurrence")
            ctx.check(eng, s.fork(), eq(pm1, P(sub(n, I(1)), x)), "eval_Pn: third result is P_(n-1)(x)")
            ctx.check(eng, s.fork(), eq(dp, dP(n, x, P(n, x), P(sub(n, I(1)), x))), "eval_Pn: second result is P_n'(x) = n (x P_n - P_(n-1))/(x^2-1)")
        if not k:
            eng.fail(st, "eval_Pn: returns normally")
    ctx.run("eval_Pn", go)
    got[EVAL] = eval_contract
    return got


def eval_contract(eng, st, args, f, path):
    out, x, n = args
    eng.oblig(st, ge(n, I(0)), "eval_Pn: degree", "safety")
    p, m = P(n, x), P(sub(n, I(1)), x)
    st.write(out.plus(16), p)
    st.write(out.plus(8), dP(n, x, p, m))
    st.write(out, m)
    return [Outcome(st, "ret", None)]


def real_apps(t):
    return [a for a in atoms(t) if a.op == "app" and a.sort == "R" and a.args[0].startswith("loop")]


def iterates(st, ts):
    """candidate iterates: the values of loop variables the result depends on"""
    r = []
    for t in ts:
        for a in subterms(t):
            if a.sort == "R" and (a.op == "app" and a.args[0].startswith("loop")) and a not in r:
                r.append(a)
    return r


def exists(ctx, eng, st, ys, goals, name):
    """some y in ys satisfies every goal(y)"""
    best = None
    for y in ys:
        eng.mute += 1
        try:
            ok = all(solver.entails(st.facts, g, 4000) for _, g in goals(y))
        finally:
            eng.mute -= 1
        if ok:
            best = y
            break
    if best is None:
        best = ys[0] if ys else None
    if best is None:
        eng.fail(st, name + ": the node is a Newton update of some iterate")
        return
    for lab, g in goals(best):
        ctx.check(eng, st.fork(), g, name + ": " + lab)


def element(eng, st, v, i, label):
    eng.mute += 1
    try:
        a = v.el.get(st, i, 0, "double")
    finally:
        eng.mute -= 1
    if not isinstance(a, T):
        eng.fail(st, label + " is defined")
        return None
    return a


def cases(ctx, eng, st, t):
    """split st on the conditionals of the given terms: (state, terms) leaves"""
    todo, out = [(st, list(t))], []
    while todo:
        s, ts = todo.pop()
        ts = [resolve_sel(s, x) for x in ts]
        x = next((find_ite(u) for u in ts if find_ite(u) is not None), None)
        if x is None:
            out.append((s, ts))
            continue
        c = x.args[0]
        d = s.decide(c)
        for v, w in ((True, x.args[1]), (False, x.args[2])):
            if d is not None and d is not v:
                continue
            s2 = s.fork()
            s2.assume(c if v else not_(c))
            if eng.feasible(s2):
                todo.append((s2, [subst(u, {x: w}) for u in ts]))
    return out


def rule(ctx, fn, name, lo, contracts, lobatto):
    def go():
        eng = ctx.engine("prim", contracts)
        st = State(eng)
        n = var("n", "I")
        sizes(st, n, lo)
        st.mem["out"] = {}
        got = 0
        N = i2r(n)
        for o in eng.call(st, fn, [n, Ptr("out", (0,))], name):
            if o.kind == "throw":
                continue          # non-convergence is reported
            if o.kind != "ret":
                eng.fail(o.st, name + ": no abort (%s)" % o.val)
                continue
            got += 1
            s0 = o.st
            p, w = s0.read(Ptr("out", (0,)), "vec"), s0.read(Ptr("out", (24,)), "vec")
            if not isinstance(p, Vec) or not isinstance(w, Vec):
                raise Unsupported("result containers")
            ctx.check(eng, s0.fork(), eq(p.len, n), name + ": number of points equals n")
            ctx.check(eng, s0.fork(), eq(w.len, n), name + ": number of weights equals n")
            # lower index of a mirrored pair
            i = var("idx", "I")
            s = s0.fork()
            s.assume(ge(i, I(0)))
            s.assume(lt(add(scale(i, 2), I(1)), n))
            k = sub(sub(n, I(1)), i)
            s.instantiate(i)
            s.instantiate(k)
            s.instantiate(sub(i, I(1)))   # Lobatto loops start at 1
            if lobatto:
                e = s.fork()
                e.assume(eq(i, I(0)))
                for lab, v, j, want in (("first point is -1", p, I(0), R(-1)), ("last point is 1", p, sub(n, I(1)), R(1)),
                                        ("first weight is 2/(n(n-1))", w, I(0), None), ("last weight is 2/(n(n-1))", w, sub(n, I(1)), None)):
                    e2 = e.fork()
                    a = element(eng, e2, v, j, name + ": " + lab)
                    if a is not None:
                        ctx.check(eng, e2, eq(a, want if want is not None else rdiv(R(2), mul(N, sub(N, R(1))))), name + ": " + lab)
                s.assume(ge(i, I(1)))
            if eng.feasible(s):
                vals = [element(eng, s, v, j, name + ": every entry") for v, j in ((p, i), (p, k), (w, i), (w, k))]
                if all(v is not None for v in vals):
                    for s2, (a, b, u, v) in cases(ctx, eng, s, vals):
                        pairs(ctx, eng, s2, name, n, N, a, b, u, v, lobatto)
            # middle node
            m = var("mid", "I")
            s = s0.fork()
            s.assume(ge(m, I(0)))
            s.assume(eq(n, add(scale(m, 2), I(1))))
            s.instantiate(m)
            s.instantiate(sub(m, I(1)))
            if eng.feasible(s):
                vals = [element(eng, s, v, m, name + ": middle entry") for v in (p, w)]
                if all(v is not None for v in vals):
                    for s2, (a, u) in cases(ctx, eng, s, vals):
                        if lobatto:
                            ctx.check(eng, s2.fork(), eq(a, R(0)), name + ": the middle node is 0 for odd n")
                            middle(ctx, eng, s2, name, n, N, u)
                        else:
                            newton(ctx, eng, s2, name, n, N, a, u, False)
        if not got:
            eng.fail(st, name + ": returns normally")
    ctx.spawn(name + "(n)", go)


def pairs(ctx, eng, s, name, n, N, a, b, u, v, lobatto):
    ctx.check(eng, s.fork(), eq(add(a, b), R(0)), name + ": nodes i and n-1-i are exact mirrors")
    ctx.check(eng, s.fork(), eq(u, v), name + ": weights i and n-1-i are equal")
    newton(ctx, eng, s, name, n, N, a, u, lobatto)


def newton(ctx, eng, s, name, n, N, a, u, lobatto):
    """a = +-z, u the weight: z is the Newton update of an iterate y within eps"""
    def goals(y):
        if lobatto:
            p, m = P(sub(n, I(1)), y), P(sub(n, I(2)), y)
            z = sub(y, rdiv(sub(mul(y, p), m), mul(N, p)))
            w = rdiv(rdiv(R(2), mul(N, sub(N, R(1)))), mul(p, p))
            wl = "the weight is 2/(n (n-1) P_(n-1)^2) of the last iterate"
        else:
            p, m = P(n, y), P(sub(n, I(1)), y)
            d = dP(n, y, p, m)
            z = sub(y, rdiv(p, d))
            w = rdiv(R(2), mul(sub(R(1), mul(z, z)), mul(d, d)))
            wl = "the weight is 2/((1-z^2) P_n'^2) of the node and its last iterate"
        eng.mute += 1
        try:
            sg = solver.entails(s.facts, eq(a, neg(z)), 4000)
        finally:
            eng.mute -= 1
        dz = sub(z, y)
        return [("the node is the Newton update of an iterate", eq(a, neg(z) if sg else z)),
                ("the update is at most machine epsilon", and_(le(dz, EPS), le(neg(dz), EPS))), (wl, eq(u, w))]
    exists(ctx, eng, s, iterates(s, [a, u]), goals, name)


def middle(ctx, eng, s, name, n, N, u):
    def goals(y):
        p, m = P(sub(n, I(1)), y), P(sub(n, I(2)), y)
        dz = neg(rdiv(sub(mul(y, p), m), mul(N, p)))
        return [("the middle weight is 2/(n (n-1) P_(n-1)^2) of the last iterate", eq(u, rdiv(rdiv(R(2), mul(N, sub(N, R(1)))), mul(p, p)))),
                ("the last update of the middle node is at most machine epsilon", and_(le(dz, EPS), le(neg(dz), EPS)))]
    exists(ctx, eng, s, iterates(s, [u]), goals, name)


def c02(ctx):
    c = evaluator(ctx)
    rule(ctx, "vf_gleg", "GaussLegendre", 0, c, False)
    rule(ctx, "vf_glob", "GaussLobatto", 2, c, True)
    ctx.join()


NATIVE = {"C02": {"name": "c02"}}
