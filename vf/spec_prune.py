"""Pruning schemes (C09)."""
from .term import *
from .sym import *
from .prove import *
from .spec_prim import outcomes
from .spec_s2 import lookup, sgn

FAM = {"ah": "AhrensBeylkin", "de": "Delley", "ll": "LebedevLaikov", "wo": "Womersley"}
TU = "fact"
U32 = (1 << 32) - 1


def kind(ctx, eng, s, pre="vf_kind_"):
    st = State(eng)
    o, = eng.call(st, pre + s, [], "kind")
    return int(cval(o.val))


def start(eng, n=None):
    st = State(eng)
    st.mem["out"] = {}
    rq = var("rq", "I")
    st.assume(ge(rq, I(0)))
    st.assume(le(rq, I(U32)))
    if n is None:
        n = var("n", "I")
        st.assume(ge(n, I(1)))
        st.assume(le(n, I(Engine.MAXLEN)))
    return st, rq, n, var("tag", "R")


def readspec(ctx, eng, st, name, out="out"):
    """(regions, radial kind) of the specification at out; None if not readable"""
    o, = outcomes(ctx, eng, eng.call(st, "vf_nreg", [Ptr(out, (0,))], name), name)
    st, nreg = o.st, o.val
    if not isconst(nreg):
        raise Unsupported("symbolic number of regions")
    regs = []
    for k in range(int(cval(nreg))):
        st.mem["reg"] = {}
        o, = outcomes(ctx, eng, eng.call(st, "vf_region", [Ptr(out, (0,)), I(k), Ptr("reg", (0,))], name), name)
        st = o.st
        regs.append([st.read(Ptr("reg", (8 * i,)), "i64") for i in range(4)])
    o, = outcomes(ctx, eng, eng.call(st, "vf_rq", [Ptr(out, (0,))], name), name)
    st, rq = o.st, o.val
    st.mem["tn"], st.mem["tt"] = {}, {}
    o, = outcomes(ctx, eng, eng.call(st, "vf_traits", [Ptr(out, (0,)), Ptr("tn", (0,)), Ptr("tt", (0,))], name), name)
    st = o.st
    return st, regs, rq, (o.val, st.read(Ptr("tn", (0,)), "i64"), st.read(Ptr("tt", (0,)), "double"))


def check_spec(ctx, eng, st, name, rq0, n, tag, aq, want):
    """want(st) -> list of (start, end, size) terms given the path"""
    st, regs, rq, tr = readspec(ctx, eng, st, name)
    P = lambda g, what: ctx.check(eng, st.fork(), g, name + ": " + what)
    P(eq(rq, rq0), "radial kind carried over")
    P(and_(eq(tr[0], I(1)), eq(tr[1], n)), "radial parameters of the same scheme and size")
    P(eq(tr[2], tag), "radial parameters carried over")
    P(TRUE if regs else FALSE, "some region")
    for k, r in enumerate(regs):
        P(eq(r[2], aq), "region %d uses the requested angular kind" % k)
        P(eq(r[0], regs[k - 1][1] if k else I(0)), "region %d starts where region %d ends" % (k, k - 1) if k else "the first region starts at shell 0")
        P(lt(r[0], r[1]), "region %d is not empty" % k)
    P(eq(regs[-1][1], n), "the last region ends at the radial size")
    w = want(st)
    # the non-empty regions of the tiling, in order
    alts = []
    full = [(a, b, z) for a, b, z in w]
    from itertools import combinations
    for m in range(len(full) + 1):
        for c in combinations(range(len(full)), m):
            if len(c) != len(regs):
                continue
            conds = [lt(full[i][0], full[i][1]) if i in c else eq(full[i][0], full[i][1]) for i in range(len(full))]
            for r, i in zip(regs, c):
                conds += [eq(r[0], full[i][0]), eq(r[1], full[i][1]), eq(r[3], full[i][2])]
            alts.append(and_(*conds))
    P(or_(*alts), "the regions are exactly the non-empty ones of the scheme, with its angular sizes")


def tmin(a, b):
    return ite(le(a, b), a, b)


def switches(n, k, low, med, out):
    """the published switch points, clamped to the last shell"""
    last = sub(n, I(1))
    s2 = tmin(add(idiv(n, I(2)), I(1)), last)
    sk = tmin(add(idiv(n, I(k)), I(1)), s2)
    return [(I(0), sk, low), (sk, s2, med), (s2, n, out)]


def least(ords, o):
    c = [x for x in ords if x >= o]
    return min(c) if c else max(ords)


def c09(ctx):
    eng0 = ctx.engine(TU)
    kinds = {s: kind(ctx, eng0, s) for s in FAM}
    np_, or_t = {}, {}
    for s in FAM:
        np_[s] = lookup(ctx, eng0, "vf_np_" + s, FAM[s] + "::npts_by_algebraic_order")
        or_t[s] = lookup(ctx, eng0, "vf_or_" + s, FAM[s] + "::algebraic_order_by_npts")
    ctx.assume("the angular lookups are the ones of C10 (their tables are re-read here by symbolic execution)")
    ctx.assume("the radial parameters are an arbitrary RadialTraits subclass whose clone() is a faithful copy (C14 proves it for the four schemes)")

    def robust(s, sizes_):
        def go():
            eng = ctx.engine(TU)
            ords = np_[s]
            for asz in sizes_:
                st, rq, n, tag = start(eng)
                name = "robust scheme, %s(%d)" % (FAM[s], asz)
                b = or_t[s][asz]
                low = ords[least(ords, 7)]
                med = ords[least(ords, b - 6 if b > 6 else b)]
                for o in outcomes(ctx, eng, eng.call(st, "vf_robust", [rq, n, tag, I(kinds[s]), I(asz), Ptr("out", (0,))], name), name):
                    check_spec(ctx, eng, o.st, name, rq, n, tag, I(kinds[s]), lambda st_: switches(n, 4, I(low), I(med), I(asz)))
        return go

    def robust_bad(s):
        def go():
            eng = ctx.engine(TU)
            st, rq, n, tag = start(eng)
            asz = var("asz", "I")
            st.assume(ge(asz, I(0)))
            st.assume(le(asz, I((1 << 64) - 1)))
            for z in or_t[s]:
                st.assume(not_(eq(asz, I(z))))
            name = "robust scheme, %s(unsupported size)" % FAM[s]
            for o in eng.call(st, "vf_robust", [rq, n, tag, I(kinds[s]), asz, Ptr("out", (0,))], name):
                if o.kind == "throw":
                    eng.oblig(o.st, TRUE, name + ": throws")
                else:
                    eng.fail(o.st, name + ": a specification is returned" if o.kind == "ret" else name + ": aborts")
        return go

    def treutler(s):
        def go():
            eng = ctx.engine(TU)
            ords = np_[s]
            st, rq, n, tag = start(eng)
            asz = var("asz", "I")
            st.assume(ge(asz, I(0)))
            st.assume(le(asz, I((1 << 64) - 1)))
            name = "Treutler scheme, %s" % FAM[s]
            low, med = ords[least(ords, 7)], ords[least(ords, 11)]
            for o in outcomes(ctx, eng, eng.call(st, "vf_treutler", [rq, n, tag, I(kinds[s]), asz, Ptr("out", (0,))], name), name):
                check_spec(ctx, eng, o.st, name, rq, n, tag, I(kinds[s]), lambda st_: switches(n, 3, I(low), I(med), asz))
        return go

    def create():
        eng = ctx.engine(TU)
        st, rq, n, tag = start(eng)
        asz, aq = var("asz", "I"), var("aq", "I")
        for v, m in ((asz, (1 << 64) - 1), (aq, U32)):
            st.assume(ge(v, I(0)))
            st.assume(le(v, I(m)))
        name = "unpruned scheme"
        for o in outcomes(ctx, eng, eng.call(st, "vf_create", [I(0), rq, n, tag, aq, asz, Ptr("out", (0,))], name), name):
            check_spec(ctx, eng, o.st, name, rq, n, tag, aq, lambda st_: [(I(0), n, asz)])
        # the named schemes dispatch to the two generators
        for sch, nm, k in ((1, "Robust", 4), (2, "Treutler", 3)):
            for s in FAM:
                ords = np_[s]
                z = sorted(or_t[s])[len(or_t[s]) // 2]
                st, rq, n, tag = start(eng)
                name = "create_pruned_spec(%s, %s(%d))" % (nm, FAM[s], z)
                b = or_t[s][z]
                med = ords[least(ords, (b - 6 if b > 6 else b) if sch == 1 else 11)]
                for o in outcomes(ctx, eng, eng.call(st, "vf_create", [I(sch), rq, n, tag, I(kinds[s]), I(z), Ptr("out", (0,))], name), name):
                    check_spec(ctx, eng, o.st, name, rq, n, tag, I(kinds[s]), lambda st_: switches(n, k, I(ords[least(ords, 7)]), I(med), I(z)))

    for s in FAM:
        zs = sorted(or_t[s])
        for a in range(0, len(zs), 12):
            ctx.spawn("robust scheme, %s sizes %d..%d" % (FAM[s], zs[a], zs[min(a + 11, len(zs) - 1)]), robust(s, zs[a:a + 12]))
        ctx.spawn("robust scheme, %s, unsupported sizes" % FAM[s], robust_bad(s))
        ctx.spawn("Treutler scheme, %s" % FAM[s], treutler(s))
    ctx.spawn("create_pruned_spec", create)
    ctx.join()


NATIVE = {"C09": {"name": "c09", "flags": ["-O1"]}}
