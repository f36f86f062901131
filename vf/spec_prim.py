"""Contracts of the primitive one-dimensional rules (C01, C03)."""
from .term import *
from .sym import *
from .sym import PI
from .prove import *


def cos_(x):
    return app("cos", (x,), "R")


def sin_(x):
    return app("sin", (x,), "R")


def sqrt_(x):
    return app("sqrt", (x,), "R")


def q(a, b=1):
    return R(Fraction(a, b))


# --- published closed forms, element i (0-based, ascending) of the n-point rule
def gc1(n, i):
    th = mul(PI, rdiv(add(scale(i, 2), q(1)), scale(n, 2)))           # (2i+1) pi / 2n
    return neg(cos_(th)), mul(rdiv(PI, n), sin_(th))


def gc2(n, i):
    th = mul(PI, rdiv(add(i, q(1)), add(n, q(1))))                     # (i+1) pi/(n+1)
    return neg(cos_(th)), mul(rdiv(PI, add(n, q(1))), sin_(th))


def gc2m(n, i):
    # Perez-Jorda et al. eqs 32, 33, with the index reversed to ascending order
    k = sub(n, i)
    n1 = add(n, q(1))
    th = mul(PI, rdiv(k, n1))
    s, c = sin_(th), cos_(th)
    x = add(sub(q(1), rdiv(scale(k, 2), n1)), mul(mul(rdiv(q(2), PI), add(q(1), scale(mul(s, s), Fraction(2, 3)))), mul(c, s)))
    w = mul(rdiv(q(16, 3), n1), ipow(s, 4))
    return x, w


def gc3(n, i):
    k = sub(n, i)
    N = add(scale(n, 2), q(1))
    th = rdiv(mul(PI, sub(scale(k, 2), q(1))), scale(N, 2))
    c, s = cos_(th), sin_(th)
    # weight 2 pi/(2n+1) x divided by sqrt(x/(1-x))
    return mul(c, c), mul(rdiv(scale(PI, 2), N), mul(s, c))


RULES = {"GaussChebyshev1": ("vf_gc1", gc1), "GaussChebyshev2": ("vf_gc2", gc2),
         "GaussChebyshev2Modified": ("vf_gc2m", gc2m), "GaussChebyshev3": ("vf_gc3", gc3)}


def sizes(st, n, lo=0):
    st.assume(ge(n, I(lo)))
    st.assume(le(n, I(Engine.MAXLEN)))


def check_rule(ctx, eng, st, root, n, form, name, extra=(), offs=(0, 24), pfx=""):
    """post-state: two vectors of n doubles equal to the closed form"""
    st = st.fork()
    for what, off in (("points", offs[0]), ("weights", offs[1])):
        v = st.read(Ptr(root, (off,)), "vec")
        if not isinstance(v, Vec):
            raise Unsupported("no %s in the result" % what)
        ctx.check(eng, st.fork(), eq(v.len, n), "%s: number of %s equals n" % (name, what))
        s = st.fork()
        i = var("idx", "I")
        s.assume(ge(i, I(0)))
        s.assume(lt(i, n))
        s.assume(lt(i, v.len))
        if not eng.feasible(s):
            continue
        x, w = form(i2r(n), i2r(i))
        exp = x if what == "points" else w
        eng.mute += 1
        try:
            act = v.el.get(s, i, 0, "double")
        finally:
            eng.mute -= 1
        if not isinstance(act, T):
            eng.fail(s, "%s: every %s entry is defined" % (name, what[:-1]))
            continue
        ctx.check(eng, s, eq(act, exp), "%s: %s[i] equals the closed form" % (name, what))


def outcomes(ctx, eng, outs, name, allow_throw=False):
    """no abort / no exception; returns normal outcomes"""
    r = []
    for o in outs:
        if o.kind == "ret":
            r.append(o)
        elif o.kind == "throw" and allow_throw:
            pass
        else:
            eng.fail(o.st, "%s: no %s (%s)" % (name, {"throw": "exception", "abort": "abort"}[o.kind], o.val), "post")
    return r


def c01(ctx):
    for name, (fn, form) in RULES.items():
        def go():
            eng = ctx.engine("prim")
            st = State(eng)
            n = var("n", "I")
            sizes(st, n)
            st.mem["out"] = {}
            outs = outcomes(ctx, eng, eng.call(st, fn, [n, Ptr("out", (0,))], name), name)
            if not outs:
                eng.fail(st, name + ": returns normally")
            for o in outs:
                check_rule(ctx, eng, o.st, "out", n, form, name)
        ctx.run(name + "(n) / quadrature_traits::generate", go)


def c03(ctx):
    def one(fn, name, dom):
        def go():
            eng = ctx.engine("prim")
            st = State(eng)
            n = var("n", "I")
            sizes(st, n, 2)
            st.mem["out"] = {}
            if dom:
                lo, up = var("lo", "R"), var("up", "R")
                args = [n, lo, up, Ptr("out", (0,))]
                offs = (0, 24)
            else:
                lo, up = R(0), R(1)
                args = [n, Ptr("out", (0,))]
                offs = (0, 24)

            def form(N, i):
                h = rdiv(sub(up, lo), sub(N, R(1)))
                end = ite(or_(eq(i, R(0)), eq(i, sub(N, R(1)))), q(1, 2), q(1))
                return add(lo, mul(i, h)), mul(h, end)
            outs = outcomes(ctx, eng, eng.call(st, fn, args, name), name)
            if not outs:
                eng.fail(st, name + ": returns normally")
            for o in outs:
                check_rule(ctx, eng, o.st, "out", n, form, name, offs=offs)
        ctx.run(name, go)
    one("vf_trap", "UniformTrapezoid(n, lo, up)", True)
    one("vf_trap01", "UniformTrapezoid::generate(n)", False)


NATIVE = {"C01": {"name": "c01"}, "C03": {"name": "c03"}}
