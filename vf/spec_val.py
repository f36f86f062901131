"""Radial parameters and grid specifications as values (C14)."""
from .term import *
from .sym import *
from .prove import *
from .spec_prim import outcomes
from . import lib

SCH = ("Bk", "Mh", "Mh3", "Mk", "Ta")
U32, U64 = (1 << 32) - 1, (1 << 64) - 1
TU = "val"


def uvar(st, name, hi):
    v = var(name, "I")
    st.assume(ge(v, I(0)))
    st.assume(le(v, I(hi)))
    return v


def c14(ctx):
    ctx.tu(TU)

    def traits(S):
        def go():
            eng = ctx.engine(TU)
            for U in SCH:
                st = State(eng)
                n, m = uvar(st, "n", U64), uvar(st, "m", U64)
                R_, Q, al, be = [var(x, "R") for x in ("R", "Q", "alpha", "beta")]
                same = and_(eq(n, m), eq(R_, Q), *([eq(al, be)] if S == "Ta" else [])) if U == S else FALSE
                fns = ["vf_cmp_%s_%s" % (S, U)] + (["vf_eq_" + S] if U == S else [])
                for fn in fns:
                    for o in outcomes(ctx, eng, eng.call(st.fork(), fn, [n, R_, al, m, Q, be], fn), fn):
                        ctx.check(eng, o.st, or_(and_(eq(o.val, I(1)), same), and_(eq(o.val, I(0)), not_(same))), "%s: %s and %s compare equal exactly when they are of the same scheme with equal parameters" % (fn, S, U))
            st = State(eng)
            n = uvar(st, "n", U64)
            R_, al = var("R", "R"), var("alpha", "R")
            for o in outcomes(ctx, eng, eng.call(st.fork(), "vf_np_" + S, [n, R_, al], "npts"), "npts"):
                ctx.check(eng, o.st, eq(o.val, n), "%s: npts() is the size it was built with" % S)
            st.mem["on"], st.mem["o"] = {}, {}
            x = var("x", "R")
            st.assume(lt(R(0), x))
            st.assume(lt(x, R(1)))
            for o in outcomes(ctx, eng, eng.call(st.fork(), "vf_clone_" + S, [n, R_, al, x, Ptr("on", (0,)), Ptr("o", (0,))], "clone"), "clone"):
                ctx.check(eng, o.st.fork(), eq(o.val, I(3)), "%s: the clone is a distinct object of the same scheme, equal to the original" % S)
                d = lambda k: o.st.read(Ptr("o", (8 * k,)), "double")
                nn = o.st.read(Ptr("on", (0,)), "i64")
                if isinstance(nn, T):
                    ctx.check(eng, o.st.fork(), eq(nn, n), "%s: the clone reports the same size" % S)
                    ctx.check(eng, o.st.fork(), and_(eq(d(0), d(1)), eq(d(2), d(3))), "%s: the clone has the same map and Jacobian" % S)
        return go

    def regs(st, root, name):
        sz_, lay = lib.layout("IntegratorXX::PruningRegion")
        ln = uvar(st, "len_" + name, Engine.MAXLEN)
        st.mem[root] = {0: Vec(ln, EFun(name), sz_, lay)}
        return ln, lay

    def mkps(ctx, eng, st, root, has, name):
        """an arbitrary specification at root"""
        rq, n, tag = uvar(st, "rq" + name, U32), uvar(st, "n" + name, U64), var("tag" + name, "R")
        ln, lay = regs(st, "regs" + name, "r" + name)
        st.mem[root] = {}
        o, = outcomes(ctx, eng, eng.call(st, "vf_mkps", [rq, I(has), n, tag, Ptr("regs" + name, (0,)), Ptr(root, (0,))], "mk" + name), "mk")
        return o.st, (rq, has, n, tag, "r" + name, ln, lay)

    def rd(name, i, off, ty):
        return app("%s@%d" % (name, off), (i,), "I")

    def is_spec(ctx, eng, st, root, d, label):
        """the object at root reads as description d"""
        rq, has, n, tag, rn, ln, lay = d
        st = st.fork()
        o, = outcomes(ctx, eng, eng.call(st, "vf_rq", [Ptr(root, (0,))], label), label)
        ctx.check(eng, o.st.fork(), eq(o.val, rq), label + ": radial kind")
        st = o.st
        st.mem["tn"], st.mem["tt"] = {}, {}
        o, = outcomes(ctx, eng, eng.call(st, "vf_traits", [Ptr(root, (0,)), Ptr("tn", (0,)), Ptr("tt", (0,))], label), label)
        ctx.check(eng, o.st.fork(), eq(o.val, I(has)), label + ": radial parameters present or absent as in the original")
        if has and isinstance(o.st.read(Ptr("tn", (0,)), "i64"), T):
            ctx.check(eng, o.st.fork(), and_(eq(o.st.read(Ptr("tn", (0,)), "i64"), n), eq(o.st.read(Ptr("tt", (0,)), "double"), tag)), label + ": radial parameters")
        st = o.st
        st.mem["vo"] = {0: Vec(I(0), EUninit(), 32, lay)}
        o, = outcomes(ctx, eng, eng.call(st, "vf_regs", [Ptr(root, (0,)), Ptr("vo", (0,))], label), label)
        v = o.st.readvec(Ptr("vo", (0,)))
        ctx.check(eng, o.st.fork(), eq(v.len, ln), label + ": number of regions")
        s = o.st.fork()
        i = var("idx", "I")
        s.assume(ge(i, I(0)))
        s.assume(lt(i, ln))
        for off, ty in lay.items():
            s2 = s.fork()
            a = v.el.get(s2, i, off, ty)
            ctx.check(eng, s2, eq(a, rd(rn, i, off, ty)), label + ": field at offset %d of region i" % off)
        return o.st

    def copies(has):
        def go():
            eng = ctx.engine(TU)
            tag_ = "with" if has else "without"
            st = State(eng)
            st, a = mkps(ctx, eng, st, "A", has, "a")
            is_spec(ctx, eng, st, "A", a, "specification %s radial parameters: constructed" % tag_)

            def independent(st, x, xd, y, yd, label):
                o, = outcomes(ctx, eng, eng.call(st.fork(), "vf_shared", [Ptr(x, (0,)), Ptr(y, (0,))], label), label)
                ctx.check(eng, o.st, eq(o.val, I(0)), label + ": radial parameters are not shared")
                is_spec(ctx, eng, st, x, xd, label + ": source")
                is_spec(ctx, eng, st, y, yd, label + ": copy")
                for p, q_, qd in ((x, y, yd), (y, x, xd)):
                    s = st.fork()
                    k = uvar(s, "k", Engine.MAXLEN)
                    s.assume(lt(k, qd[5]))
                    o, = outcomes(ctx, eng, eng.call(s, "vf_poke", [Ptr(p, (0,)), k], label), label)
                    is_spec(ctx, eng, o.st, q_, qd, label + ": changing %s leaves the other unchanged" % ("the source" if p is x else "the copy"))

            s = st.fork()
            s.mem["B"] = {}
            o, = outcomes(ctx, eng, eng.call(s, "vf_pscopy", [Ptr("A", (0,)), Ptr("B", (0,))], "copy"), "copy")
            independent(o.st, "A", a, "B", a, "copy construction %s radial parameters" % tag_)
            # assignment over any other specification
            for hb in (0, 1):
                s, b = mkps(ctx, eng, st.fork(), "B", hb, "b")
                o, = outcomes(ctx, eng, eng.call(s, "vf_psassign", [Ptr("B", (0,)), Ptr("A", (0,))], "assign"), "assign")
                independent(o.st, "A", a, "B", a, "assignment %s radial parameters over one %s" % (tag_, "with" if hb else "without"))
            o, = outcomes(ctx, eng, eng.call(st.fork(), "vf_psself", [Ptr("A", (0,))], "self"), "self")
            is_spec(ctx, eng, o.st, "A", a, "self-assignment %s radial parameters" % tag_)
        return go

    def equality(ha, hb):
        def go():
            eng = ctx.engine(TU)
            st = State(eng)
            st, a = mkps(ctx, eng, st, "A", ha, "a")
            st, b = mkps(ctx, eng, st, "B", hb, "b")
            name = "equality (%s / %s radial parameters)" % ("with" if ha else "without", "with" if hb else "without")
            tr = TRUE if not ha and not hb else FALSE if ha != hb else and_(eq(a[2], b[2]), eq(a[3], b[3]))
            head = and_(eq(a[0], b[0]), tr, eq(a[5], b[5]))
            lay = a[6]
            for o in outcomes(ctx, eng, eng.call(st, "vf_pseq", [Ptr("A", (0,)), Ptr("B", (0,))], name), name):
                s = o.st
                if not isconst(o.val):
                    raise Unsupported("symbolic result of ==")
                if cval(o.val):
                    ctx.check(eng, s.fork(), head, name + ": true only if kinds, parameters and number of regions agree")
                    s2 = s.fork()
                    i = var("idx", "I")
                    s2.assume(ge(i, I(0)))
                    s2.assume(lt(i, a[5]))
                    s2.instantiate(i)
                    for off, ty in lay.items():
                        ctx.check(eng, s2.fork(), eq(rd("ra", i, off, ty), rd("rb", i, off, ty)), name + ": true only if field at offset %d of every region agrees" % off)
                else:
                    wit = set()
                    for f in s.facts:
                        for x in subterms(f):
                            if x.op == "app" and x.args[0].startswith(("ra@", "rb@")):
                                wit.add(x.args[1])
                    diff = [and_(ge(t, I(0)), lt(t, a[5]), not_(and_(*[eq(rd("ra", t, off, ty), rd("rb", t, off, ty)) for off, ty in lay.items()]))) for t in wit]
                    ctx.check(eng, s.fork(), or_(not_(head), *diff), name + ": false only if something differs")
        return go

    def region():
        eng = ctx.engine(TU)
        st = State(eng)
        st.mem["x"], st.mem["y"] = {}, {}
        vs = {}
        for r in "xy":
            vs[r] = [uvar(st, r + str(k), U32 if k == 2 else U64) for k in range(4)]
            o, = outcomes(ctx, eng, eng.call(st, "vf_rput", [Ptr(r, (0,))] + vs[r], "put"), "put")
            st = o.st
        same = and_(*[eq(a, b) for a, b in zip(vs["x"], vs["y"])])
        for o in outcomes(ctx, eng, eng.call(st, "vf_reqe", [Ptr("x", (0,)), Ptr("y", (0,))], "regions"), "regions"):
            ctx.check(eng, o.st, or_(and_(eq(o.val, I(1)), same), and_(eq(o.val, I(0)), not_(same))), "regions compare equal exactly when all four fields agree")

    def unpruned():
        eng = ctx.engine(TU)
        st = State(eng)
        rq, n, tag, aq, z = uvar(st, "rq", U32), uvar(st, "n", U64), var("tag", "R"), uvar(st, "aq", U32), uvar(st, "z", U64)
        st.mem["A"], st.mem["B"] = {}, {}
        o, = outcomes(ctx, eng, eng.call(st, "vf_mkus", [rq, n, tag, aq, z, Ptr("A", (0,))], "mk"), "mk")
        o, = outcomes(ctx, eng, eng.call(o.st, "vf_uscopy", [Ptr("A", (0,)), Ptr("B", (0,))], "copy"), "copy")
        st = o.st

        def get(st, root, label):
            s = st.fork()
            s.mem["g"], s.mem["gt"] = {}, {}
            o, = outcomes(ctx, eng, eng.call(s, "vf_usget", [Ptr(root, (0,)), Ptr("g", (0,)), Ptr("gt", (0,))], label), label)
            ctx.check(eng, o.st.fork(), eq(o.val, I(1)), label + ": radial parameters of the same scheme")
            for k, (w, nm) in enumerate(((rq, "radial kind"), (aq, "angular kind"), (z, "angular size"), (n, "radial size"))):
                ctx.check(eng, o.st.fork(), eq(o.st.read(Ptr("g", (8 * k,)), "i64"), w), label + ": " + nm)
            ctx.check(eng, o.st.fork(), eq(o.st.read(Ptr("gt", (0,)), "double"), tag), label + ": radial parameters")
        get(st, "A", "unpruned specification")
        get(st, "B", "copy of an unpruned specification")
        o, = outcomes(ctx, eng, eng.call(st.fork(), "vf_usshared", [Ptr("A", (0,)), Ptr("B", (0,))], "shared"), "shared")
        ctx.check(eng, o.st, eq(o.val, I(0)), "copy of an unpruned specification: radial parameters are not shared")
        for p, q_ in (("A", "B"), ("B", "A")):
            o, = outcomes(ctx, eng, eng.call(st.fork(), "vf_uspoke", [Ptr(p, (0,))], "poke"), "poke")
            get(o.st, q_, "unpruned specification after changing the other copy")

    for S in SCH:
        ctx.spawn("radial parameters " + S, traits(S))
    ctx.spawn("region equality", region)
    for h in (0, 1):
        ctx.spawn("copies of pruned specifications, radial parameters %s" % ("present" if h else "absent"), copies(h))
        for h2 in (0, 1):
            ctx.spawn("equality of pruned specifications %d%d" % (h, h2), equality(h, h2))
    ctx.spawn("copies of unpruned specifications", unpruned)
    ctx.join()


NATIVE = {"C14": {"name": "c14", "flags": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]}}
