"""Contracts of the composite quadratures and the container (C06, C07, C08, C17)."""
from .term import *
from .sym import *
from .prove import *
from .spec_prim import outcomes, sizes, q

D1 = {0: "double"}
D3 = {0: "double", 8: "double", 16: "double"}


def vec(st, root, off, name, n, es=8, lay=None):
    st.mem.setdefault(root, {})
    c = dict(st.mem[root])
    c[off] = Vec(n, EFun(name), es, lay or D1)
    st.mem[root] = c


def rd(name, i, off=0):
    return app("%s@%d" % (name, off), (i,), "R")


def mkinp(st, root="in", pfx="", nr=None, na=None):
    """inp { rp, rw, ap, aw } with arbitrary contents"""
    nr = nr if nr is not None else var("nr" + pfx, "I")
    na = na if na is not None else var("na" + pfx, "I")
    for n in (nr, na):
        if not isconst(n):
            sizes(st, n)
    vec(st, root, 0, "rp" + pfx, nr)
    vec(st, root, 24, "rw" + pfx, nr)
    vec(st, root, 48, "ap" + pfx, na, 24, D3)
    vec(st, root, 72, "aw" + pfx, na)
    return nr, na


def mkpt(st, root):
    vs = [var(root + "_" + c, "R") for c in "xyz"]
    st.mem[root] = {8 * k: v for k, v in enumerate(vs)}
    return vs


def elem(ctx, eng, st, v, idx, off, label):
    if not isinstance(v, Vec):
        raise Unsupported("no container in the result: " + label)
    eng.mute += 1
    try:
        r = v.el.get(st, idx, off, "double")
    finally:
        eng.mute -= 1
    if not isinstance(r, T):
        eng.fail(st, label + " is defined")
        return None
    return r


def runfn(ctx, eng, st, fn, args, name):
    outs = outcomes(ctx, eng, eng.call(st, fn, args, name), name)
    if not outs:
        eng.fail(st, name + ": returns normally")
    return outs


def check_product(ctx, eng, st, root, nr, na, cen, name, cen_out=True, base=0, r_off=None):
    """res at root is the product grid of rp,rw,ap,aw shifted to cen"""
    p, w = st.read(Ptr(root, (base,)), "vec"), st.read(Ptr(root, (base + 24,)), "vec")
    if not isinstance(p, Vec) or not isinstance(w, Vec):
        raise Unsupported("result containers missing")
    n = mul(nr, na)
    ctx.check(eng, st.fork(), eq(p.len, n), name + ": nr*na points")
    ctx.check(eng, st.fork(), eq(w.len, n), name + ": nr*na weights")
    s = st.fork()
    i, j = var("i", "I"), var("j", "I")
    for v, m in ((i, nr), (j, na)):
        s.assume(ge(v, I(0)))
        s.assume(lt(v, m))
    idx = add(i, mul(j, nr))
    # index range of the layout i + j*nr (used by the case analysis below)
    ctx.check(eng, s, and_(ge(idx, I(0)), lt(idx, n)), name + ": index i + j*nr is in range")
    s.assume(and_(ge(idx, I(0)), lt(idx, n)))
    ri = rd("rp", i)
    for k in range(3):
        s2 = s.fork()
        a = elem(ctx, eng, s2, p, idx, 8 * k, name + ": point")
        if a is not None:
            ctx.check(eng, s2, eq(a, add(mul(ri, rd("ap", j, 8 * k)), cen[k])), "%s: point (i,j) component %d is r_i*a_j + centre" % (name, k))
    s2 = s.fork()
    a = elem(ctx, eng, s2, w, idx, 0, name + ": weight")
    if a is not None:
        ctx.check(eng, s2, eq(a, mul(mul(rd("rw", i), rd("aw", j)), mul(ri, ri))), name + ": weight (i,j) is w_i*w_j*r_i^2")
    if cen_out:
        for k in range(3):
            c = st.read(Ptr(root, (base + 48 + 8 * k,)), "double")
            ctx.check(eng, st.fork(), eq(c, cen[k]), "%s: reported centre component %d" % (name, k))
        m = st.read(Ptr(root, (base + 72,)), "i64")
        ctx.check(eng, st.fork(), eq(m, n), name + ": npts() is nr*na")


def same_vec(ctx, eng, st, v, name, n, comps, label):
    """container v has n entries equal to the uninterpreted contents `name`"""
    ctx.check(eng, st.fork(), eq(v.len, n), label + ": size")
    s = st.fork()
    i = var("idx", "I")
    s.assume(ge(i, I(0)))
    s.assume(lt(i, n))
    for o in comps:
        s2 = s.fork()
        a = elem(ctx, eng, s2, v, i, o, label)
        if a is not None:
            ctx.check(eng, s2, eq(a, rd(name, i, o)), label + ": entry i")


# ------------------------------------------------------------------ callee contract
def prod_functions(eng):
    out = []
    for n, f in eng.fns.items():
        d = f["dem"]
        if d.startswith("IntegratorXX::quadrature_traits<IntegratorXX::ProductQuadrature<IntegratorXX::detail::spherical_combine_op<double>") \
                and "::generate(" in d and not f.get("decl") and len(f["args"]) == 3 and f["args"][0].get("sret") == 48:
            out.append((n, d))
    return out


def prod_elem(st, a, idx, off, ty):
    """element of the product rule: (i,j) = (idx mod nr, idx div nr)"""
    kind, x, y = a
    j, i = qr(st, idx, x.len)
    u = x.el.get(st, i, 0, "double")
    v = y.el.get(st, j, off, "double")
    if not isinstance(u, T) or not isinstance(v, T):
        return UNDEF
    return mul(u, v)


def prod_contract(eng, st, args, f, path):
    """tuple of the nr*na products, radial index fastest; arguments unchanged"""
    out, r, a = args
    rp, rw = st.read(r, "vec"), st.read(r.plus(24), "vec")
    ap, aw = st.read(a, "vec"), st.read(a.plus(24), "vec")
    if not all(isinstance(v, Vec) for v in (rp, rw, ap, aw)):
        raise Unsupported("containers of a quadrature argument")
    eng.oblig(st, and_(eq(rp.len, rw.len), eq(ap.len, aw.len)), "product rule: as many weights as points in both factors", "safety")
    n = mul(rp.len, ap.len)
    st.assume(le(n, I(1 << 59)))
    st.assume(ge(n, I(0)))
    st.write(out.plus(24), Vec(n, ESpec("product.points", prod_elem, ("p", rp, ap)), 24, D3))
    st.write(out, Vec(n, ESpec("product.weights", prod_elem, ("w", rw, aw)), 8, D1))
    return [Outcome(st, "ret", None)]


def with_product(ctx):
    """verify ProductQuadrature::generate against its contract; the contracts that callers
    may use (empty when it could not be verified, callers then inline the body)"""
    if hasattr(ctx, "prodc"):
        return ctx.prodc
    ctx.prodc = {}
    got = {}

    def verify():
        eng0 = ctx.engine("sph")
        for fn, dem in prod_functions(eng0):
            eng = ctx.engine("sph")
            st = State(eng)
            nr, na = var("nr", "I"), var("na", "I")
            sizes(st, nr)
            sizes(st, na)
            for root, o, nm, n, es, lay in (("r", 0, "rp", nr, 8, D1), ("r", 24, "rw", nr, 8, D1), ("a", 0, "ap", na, 24, D3), ("a", 24, "aw", na, 8, D1)):
                vec(st, root, o, nm, n, es, lay)
            st.mem["out"] = {}
            nm = "product rule generate"
            for o in runfn(ctx, eng, st, fn, [Ptr("out", (0,)), Ptr("r", (0,)), Ptr("a", (0,))], nm):
                p, w = o.st.read(Ptr("out", (24,)), "vec"), o.st.read(Ptr("out", (0,)), "vec")
                n = mul(nr, na)
                ctx.check(eng, o.st.fork(), eq(p.len, n), nm + ": nr*na points")
                ctx.check(eng, o.st.fork(), eq(w.len, n), nm + ": nr*na weights")
                s = o.st.fork()
                i, j = var("i", "I"), var("j", "I")
                for v, m in ((i, nr), (j, na)):
                    s.assume(ge(v, I(0)))
                    s.assume(lt(v, m))
                idx = add(i, mul(j, nr))
                ctx.check(eng, s, and_(ge(idx, I(0)), lt(idx, n)), nm + ": index in range")
                s.assume(and_(ge(idx, I(0)), lt(idx, n)))
                for k in range(3):
                    x = elem(ctx, eng, s, p, idx, 8 * k, nm)
                    if x is not None:
                        ctx.check(eng, s, eq(x, mul(rd("rp", i), rd("ap", j, 8 * k))), nm + ": point (i,j)")
                x = elem(ctx, eng, s, w, idx, 0, nm)
                if x is not None:
                    ctx.check(eng, s, eq(x, mul(rd("rw", i), rd("aw", j))), nm + ": weight (i,j)")
                for root, off, cn, n_, cs in (("r", 0, "rp", nr, (0,)), ("r", 24, "rw", nr, (0,)), ("a", 0, "ap", na, (0, 8, 16)), ("a", 24, "aw", na, (0,))):
                    same_vec(ctx, eng, o.st, o.st.read(Ptr(root, (off,)), "vec"), cn, n_, cs, nm + ": %s unchanged" % cn)
            if all(o.status == "proved" for o in eng.obligations):
                got[dem] = prod_contract
    ctx.run("ProductQuadrature::generate (contract used by its callers)", verify)
    if any(o.status != "proved" for e in ctx.engines for o in e.obligations):
        # not the product any more: callers are checked against the body instead
        pass
    ctx.prodc = got
    return got


def c06(ctx):
    def full():
        eng = ctx.engine("sph")
        st = State(eng)
        nr, na = mkinp(st)
        cen = mkpt(st, "cen")
        st.mem["out"], st.mem["after"] = {}, {}
        nm = "SphericalQuadrature(rq, aq, centre)"
        for o in runfn(ctx, eng, st, "vf_sph", [Ptr("in", (0,)), Ptr("cen", (0,)), Ptr("out", (0,)), Ptr("after", (0,))], nm):
            check_product(ctx, eng, o.st, "out", nr, na, cen, nm)
            for off, name, n, cs in ((0, "rp", nr, (0,)), (24, "rw", nr, (0,)), (48, "ap", na, (0, 8, 16)), (72, "aw", na, (0,))):
                same_vec(ctx, eng, o.st, o.st.read(Ptr("after", (off,)), "vec"), name, n, cs, nm + ": input %s unchanged" % name)
                same_vec(ctx, eng, o.st, o.st.read(Ptr("in", (off,)), "vec"), name, n, cs, nm + ": source %s unchanged" % name)
    ctx.run("SphericalQuadrature / ProductQuadrature::generate (nr, na arbitrary)", full)

    def dflt():
        eng = ctx.engine("sph")
        st = State(eng)
        nr, na = mkinp(st)
        st.mem["out"] = {}
        nm = "SphericalQuadrature(rq, aq)"
        for o in runfn(ctx, eng, st, "vf_sph0", [Ptr("in", (0,)), Ptr("out", (0,))], nm):
            check_product(ctx, eng, o.st, "out", nr, na, [R(0)] * 3, nm)
    ctx.run("SphericalQuadrature with the default centre", dflt)
    ctx.lean(["product_inside", "product_covers", "product_unique"])


# ------------------------------------------------------------------ recentring
def centre_pt(st, root, tag):
    return mkpt(st, root)


def c07(ctx):
    ctx.preload(["sph"])

    def rec():
        """recenter on any grid object: translation, weights untouched, centre stored"""
        for nm, fn, args, cs in (("SphericalQuadrature: recenter", "vf_rec1", ("c0", "c1"), "c1"),
                                 ("SphericalQuadrature: two recentrings", "vf_rec2", ("c0", "c1", "c2"), "c2"),):
            eng = ctx.engine("sph")
            st = State(eng)
            nr, na = mkinp(st)
            cen = {c: mkpt(st, c) for c in args}
            st.mem["out"] = {}
            for o in runfn(ctx, eng, st, fn, [Ptr("in", (0,))] + [Ptr(c, (0,)) for c in args] + [Ptr("out", (0,))], nm):
                check_product(ctx, eng, o.st, "out", nr, na, cen[cs], nm)
    ctx.spawn("recenter of a product grid (once, twice)", rec)

    def hist():
        """general histories: recenter on an arbitrary grid in an arbitrary state"""
        eng = ctx.engine("sph")
        st = State(eng)
        nr, na = mkinp(st)
        c0, c1 = mkpt(st, "c0"), mkpt(st, "c1")
        st.mem["g"] = {}
        nm = "SphericalQuadratureBase::recenter"
        for o in runfn(ctx, eng, st, "vf_mk", [Ptr("in", (0,)), Ptr("c0", (0,)), Ptr("g", (0,))], "construction"):
            s = o.st
            cells = dict(s.mem["g"])
            n = None
            cenoff = [k for k, v in cells.items() if isinstance(v, T) and v.sort == "R"]
            vecs = sorted(k for k, v in cells.items() if isinstance(v, Vec))
            if len(vecs) != 2 or len(cenoff) != 3:
                raise Unsupported("object layout of SphericalQuadrature")
            n = var("npts", "I")
            sizes(s, n)
            cen = [var("cur_" + c, "R") for c in "xyz"]
            for k, off in enumerate(sorted(cenoff)):
                cells[off] = cen[k]
            # points are the vector with 24-byte elements
            for off in vecs:
                v = cells[off]
                if v.esize == 24:
                    cells[off] = Vec(n, EFun("gp"), 24, D3)
                else:
                    cells[off] = Vec(n, EFun("gw"), 8, D1)
            s.mem["g"] = cells
            s.mem["out"] = {}
            for o2 in runfn(ctx, eng, s, "vf_recg", [Ptr("g", (0,)), Ptr("c1", (0,)), Ptr("out", (0,))], nm):
                moved(ctx, eng, o2.st, "out", n, "gp", "gw", [sub(c1[k], cen[k]) for k in range(3)], c1, nm)
    ctx.spawn("recenter from an arbitrary state (any points, weights, centre)", hist)

    def clones():
        for nm, fn, (oc, cc) in (("clone(), clone recentred", "vf_clone", ("c0", "c0")), ("clone(), original changed", "vf_clone2", ("c1", "c0")),
                                 ("copy constructor, original recentred", "vf_copy", ("c1", "c0"))):
            eng = ctx.engine("sph")
            st = State(eng)
            nr, na = mkinp(st)
            if fn == "vf_clone2":
                st.assume(gt(nr, I(0)))
                st.assume(gt(na, I(0)))
            cen = {c: mkpt(st, c) for c in ("c0", "c1")}
            st.mem["orig"], st.mem["copy"] = {}, {}
            for o in runfn(ctx, eng, st, fn, [Ptr("in", (0,)), Ptr("c0", (0,)), Ptr("c1", (0,)), Ptr("orig", (0,)), Ptr("copy", (0,))], nm):
                if fn != "vf_clone2":
                    check_product(ctx, eng, o.st, "orig", nr, na, cen[oc], nm + ", original")
                check_product(ctx, eng, o.st, "copy", nr, na, cen[cc], nm + ", copy")
    ctx.spawn("clone / copy of a product grid are equal and independent", clones)

    def pruned():
        eng = ctx.engine("sph")
        st = State(eng)
        nr, na = mkinp(st)
        st.assume(gt(nr, I(0)))
        c0, c1 = mkpt(st, "c0"), mkpt(st, "c1")
        st.mem["out"] = {}
        nm = "PrunedSphericalQuadrature: recenter"
        for o in runfn(ctx, eng, st, "vf_prec", [Ptr("in", (0,)), Ptr("c0", (0,)), Ptr("c1", (0,)), Ptr("out", (0,))], nm):
            check_product(ctx, eng, o.st, "out", nr, na, c1, nm)
        eng = ctx.engine("sph")
        st = State(eng)
        nr, na = mkinp(st)
        st.assume(gt(nr, I(0)))
        c0, c1 = mkpt(st, "c0"), mkpt(st, "c1")
        st.mem["orig"], st.mem["copy"] = {}, {}
        nm = "PrunedSphericalQuadrature: clone"
        for o in runfn(ctx, eng, st, "vf_pclone", [Ptr("in", (0,)), Ptr("c0", (0,)), Ptr("c1", (0,)), Ptr("orig", (0,)), Ptr("copy", (0,))], nm):
            check_product(ctx, eng, o.st, "orig", nr, na, c1, nm + ", original")
            check_product(ctx, eng, o.st, "copy", nr, na, c0, nm + ", copy")
    ctx.spawn("recenter and clone of a pruned grid", pruned)
    ctx.join()


def moved(ctx, eng, st, root, n, gp, gw, d, c1, nm):
    p, w = st.read(Ptr(root, (0,)), "vec"), st.read(Ptr(root, (24,)), "vec")
    ctx.check(eng, st.fork(), eq(p.len, n), nm + ": number of points unchanged")
    ctx.check(eng, st.fork(), eq(w.len, n), nm + ": number of weights unchanged")
    s = st.fork()
    i = var("idx", "I")
    s.assume(ge(i, I(0)))
    s.assume(lt(i, n))
    for k in range(3):
        s2 = s.fork()
        a = elem(ctx, eng, s2, p, i, 8 * k, nm + ": point")
        if a is not None:
            ctx.check(eng, s2, eq(a, add(rd(gp, i, 8 * k), d[k])), "%s: point i component %d moved by the centre difference" % (nm, k))
    s2 = s.fork()
    a = elem(ctx, eng, s2, w, i, 0, nm + ": weight")
    if a is not None:
        ctx.check(eng, s2, eq(a, rd(gw, i)), nm + ": weight i unchanged")
    for k in range(3):
        c = st.read(Ptr(root, (48 + 8 * k,)), "double")
        ctx.check(eng, st.fork(), eq(c, c1[k]), "%s: reported centre component %d" % (nm, k))


def prefix(R, cnt, nm="P"):
    """P(k) = cnt(0)+...+cnt(k-1): the specification of accumulated lengths"""
    return lambda k: app(nm, (k,), "I")


def c08(ctx):
    pc = with_product(ctx)

    def one():
        eng = ctx.engine("sph", pc)
        st = State(eng)
        nr, na = mkinp(st)
        st.assume(gt(nr, I(0)))
        cen = mkpt(st, "cen")
        st.mem["out"] = {}
        nm = "a single region equals the unpruned product"
        for o in runfn(ctx, eng, st, "vf_pruned1", [Ptr("in", (0,)), Ptr("cen", (0,)), Ptr("out", (0,))], nm):
            check_product(ctx, eng, o.st, "out", nr, na, cen, nm)
    ctx.spawn("one region covering every shell", one)

    def two():
        eng = ctx.engine("sph", pc)
        st = State(eng)
        nr, na = mkinp(st)
        nb, i1 = var("nb", "I"), var("i1", "I")
        sizes(st, nb)
        vec(st, "ap1", 0, "ap1", nb, 24, D3)
        vec(st, "aw1", 0, "aw1", nb)
        st.assume(gt(i1, I(0)))
        st.assume(lt(i1, nr))
        cen = mkpt(st, "cen")
        st.mem["out"] = {}
        n0, n1 = mul(i1, na), mul(sub(nr, i1), nb)
        st.assume(le(add(n0, n1), I(eng.MAXLEN)))
        nm = "two regions given to the constructor"
        for o in runfn(ctx, eng, st, "vf_pruned2", [Ptr("in", (0,)), Ptr("ap1", (0,)), Ptr("aw1", (0,)), i1, Ptr("cen", (0,)), Ptr("out", (0,))], nm):
            p, w = o.st.read(Ptr("out", (0,)), "vec"), o.st.read(Ptr("out", (24,)), "vec")
            ctx.check(eng, o.st.fork(), eq(p.len, add(n0, n1)), nm + ": number of points")
            ctx.check(eng, o.st.fork(), eq(w.len, add(n0, n1)), nm + ": number of weights")
            for reg, (b0, rows, cols, ap, aw, base, cnt) in enumerate(((I(0), i1, na, "ap", "aw", I(0), n0), (i1, sub(nr, i1), nb, "ap1", "aw1", n0, n1))):
                s = o.st.fork()
                i, j = var("i", "I"), var("j", "I")
                for v, m in ((i, rows), (j, cols)):
                    s.assume(ge(v, I(0)))
                    s.assume(lt(v, m))
                loc = add(i, mul(j, rows))
                ctx.check(eng, s, and_(ge(loc, I(0)), lt(loc, cnt)), nm + ": position inside the region is in range")
                s.assume(and_(ge(loc, I(0)), lt(loc, cnt), ge(n0, I(0)), ge(n1, I(0))))
                ri = rd("rp", add(b0, i))
                for c in range(3):
                    s2 = s.fork()
                    a = elem(ctx, eng, s2, p, add(base, loc), 8 * c, nm + ": point")
                    if a is not None:
                        ctx.check(eng, s2, eq(a, add(mul(ri, rd(ap, j, 8 * c)), cen[c])), "%s: region %d, point (i,j), component %d" % (nm, reg, c))
                s2 = s.fork()
                a = elem(ctx, eng, s2, w, add(base, loc), 0, nm + ": weight")
                if a is not None:
                    ctx.check(eng, s2, eq(a, mul(mul(rd("rw", add(b0, i)), rd(aw, j)), mul(ri, ri))), "%s: region %d, weight (i,j)" % (nm, reg))
    ctx.spawn("two regions given to the constructor", two)

    def parts():
        for how in range(3):
            eng = ctx.engine("sph", pc)
            st = State(eng)
            nr, na = mkinp(st)
            nb, i1 = var("nb", "I"), var("i1", "I")
            sizes(st, nb)
            vec(st, "ap1", 0, "ap1", nb, 24, D3)
            vec(st, "aw1", 0, "aw1", nb)
            st.assume(gt(i1, I(0)))
            st.assume(lt(i1, nr))
            ev = lambda es, lay: Vec(I(0), EZero(), es, lay)
            st.mem["out"] = {o: UNDEF for o in range(0, 40, 8)}
            for k in range(2):
                st.mem["out"][40 + 24 * k] = ev(24, D3)
                st.mem["out"][88 + 24 * k] = ev(8, D1)
            nm = "iterating over the partition (%s)" % ("begin", "begin const", "cbegin")[how]
            for o in runfn(ctx, eng, st, "vf_parts", [Ptr("in", (0,)), Ptr("ap1", (0,)), Ptr("aw1", (0,)), i1, I(how), Ptr("out", (0,))], nm):
                s = o.st
                q = lambda f: s.read(Ptr("out", (f,)), "i64")
                for off, v, lab in ((0, I(2), "two regions"), (8, I(0), "first region starts at 0"), (16, i1, "second region starts at its index"),
                                    (24, i1, "first region ends where the second starts"), (32, nr, "last region ends at the last shell")):
                    ctx.check(eng, s.fork(), eq(q(off), v), nm + ": " + lab)
                for k, (p, w, n) in enumerate((("ap", "aw", na), ("ap1", "aw1", nb))):
                    same_vec(ctx, eng, s, s.read(Ptr("out", (40 + 24 * k,)), "vec"), p, n, (0, 8, 16), nm + ": points of the angular rule of region %d" % k)
                    same_vec(ctx, eng, s, s.read(Ptr("out", (88 + 24 * k,)), "vec"), w, n, (0,), nm + ": weights of the angular rule of region %d" % k)
    ctx.spawn("iteration over a partition", parts)

    def general(fn="vf_prunedn", nm="PrunedSphericalQuadrature, any number of regions"):
        eng = ctx.engine("sph", pc)
        st = State(eng)
        R_ = var("R", "I")
        sizes(st, R_)
        st.assume(gt(R_, I(0)))
        nr, na0 = mkinp(st)
        st.assume(gt(nr, I(0)))
        cen = mkpt(st, "cen")
        B = lambda k: app("b@0", (k,), "I")
        NA = lambda k: app("qp@0.len", (k,), "I")
        # precondition: region starts are 0 = b(0) < b(1) < ... < nr
        end = lambda k: ite(lt(add(k, I(1)), R_), B(add(k, I(1))), nr)

        def bnd(s, idx, off, ty, v):
            s.assume(implies(and_(ge(idx, I(0)), lt(idx, R_)), and_(ge(B(idx), I(0)), lt(B(idx), nr))))
            s.assume(implies(eq(idx, I(0)), eq(B(idx), I(0))))
            for k in (idx, sub(idx, I(1))):
                k1 = add(k, I(1))
                s.assume(implies(and_(ge(k, I(0)), lt(k1, R_)), lt(B(k), B(k1))))

        def wl(s, idx, off, ty, v):
            s.assume(eq(app("qw@0.len", (idx,), "I"), NA(idx)))
            s.assume(ge(NA(idx), I(0)))
            s.assume(le(NA(idx), I(eng.MAXLEN)))
        st.assume(eq(B(I(0)), I(0)))
        st.mem["b"] = {0: Vec(R_, EFun("b", (), bnd), 8, {0: "i64"})}
        st.mem["qp"] = {0: Vec(R_, EFun("qp", (), wl, {0: 24}), 24, {0: "vec"})}
        st.mem["qw"] = {0: Vec(R_, EFun("qw", (), wl, {0: 8}), 24, {0: "vec"})}
        st.mem["out"] = {}
        P = lambda k: app("P", (k,), "I")
        cnt = lambda k: mul(sub(end(k), B(k)), NA(k))
        st.assume(le(P(R_), I(eng.MAXLEN)))

        def cand(e, s0, K, v0, h):
            # accumulated length of the first K regions
            inr = and_(ge(K, I(0)), lt(K, R_))
            return [(P(K), [eq(P(I(0)), I(0)), ge(P(K), I(0)), implies(inr, eq(P(add(K, I(1))), add(P(K), cnt(K)))),
                            implies(and_(ge(K, I(1)), le(K, R_)), eq(P(K), add(P(sub(K, I(1))), cnt(sub(K, I(1))))))])]
        eng.cands.append(cand)
        for o in runfn(ctx, eng, st, fn, [Ptr(x, (0,)) for x in ("in", "b", "qp", "qw", "cen", "out")], nm):
            s = o.st
            p, w = s.read(Ptr("out", (0,)), "vec"), s.read(Ptr("out", (24,)), "vec")
            ctx.check(eng, s.fork(), eq(p.len, P(R_)), nm + ": number of points is the sum over the regions")
            ctx.check(eng, s.fork(), eq(w.len, P(R_)), nm + ": number of weights is the sum over the regions")
            k, i, j = var("k0", "I"), var("i", "I"), var("j", "I")
            s = s.fork()
            for v, m in ((k, R_), (i, sub(end(k), B(k))), (j, NA(k))):
                s.assume(ge(v, I(0)))
                s.assume(lt(v, m))
            bnd(s, k, 0, "", None)
            bnd(s, add(k, I(1)), 0, "", None)
            wl(s, k, 0, "", None)
            npr = sub(end(k), B(k))
            loc = add(i, mul(j, npr))
            ctx.check(eng, s, and_(ge(loc, I(0)), lt(loc, cnt(k))), nm + ": position inside region k is in range")
            s.assume(and_(ge(loc, I(0)), lt(loc, cnt(k))))
            # lemma (induction over regions, lean/Lemmas.lean: block_inside): blocks of a prefix sum
            s.assume(and_(ge(P(k), I(0)), le(add(P(k), cnt(k)), P(R_))))
            idx = add(P(k), loc)
            ri = rd("rp", add(B(k), i))
            for c in range(3):
                s2 = s.fork()
                a = elem(ctx, eng, s2, p, idx, 8 * c, nm + ": point")
                if a is not None:
                    ctx.check(eng, s2, eq(a, add(mul(ri, app("qp@0@%d" % (8 * c), (k, j), "R")), cen[c])), "%s: region k, point (i,j), component %d" % (nm, c))
            s2 = s.fork()
            a = elem(ctx, eng, s2, w, idx, 0, nm + ": weight")
            if a is not None:
                ctx.check(eng, s2, eq(a, mul(mul(rd("rw", add(B(k), i)), app("qw@0@0", (k, j), "R")), mul(ri, ri))), nm + ": region k, weight (i,j)")
            for c in range(3):
                ctx.check(eng, o.st.fork(), eq(o.st.read(Ptr("out", (48 + 8 * c,)), "double"), cen[c]), "%s: reported centre component %d" % (nm, c))
    ctx.spawn("any number of regions, boundaries and angular rules", general)
    ctx.spawn("the same after copying, moving and assigning the partition", lambda: general("vf_prunedc", "copied partition and grid"))
    ctx.join()
    ctx.lean(["block_inside", "blocks_disjoint", "block_covers", "product_inside", "product_covers", "product_unique"])


# ------------------------------------------------------------------ container
def pw(st, es=8, lay=None):
    n = var("n", "I")
    sizes(st, n)
    vec(st, "p", 0, "p", n, es, lay or D1)
    vec(st, "w", 0, "w", n)
    return n


def c17(ctx):
    P, W, O = Ptr("p", (0,)), Ptr("w", (0,)), Ptr("out", (0,))

    def ctor():
        for fn, nm in (("vf_ctor", "construction"), ("vf_qmove", "move construction")):
            eng = ctx.engine("sph")
            st = State(eng)
            n = pw(st)
            st.mem["out"] = {}
            for o in runfn(ctx, eng, st, fn, [P, W, O], nm):
                same_vec(ctx, eng, o.st, o.st.read(O, "vec"), "p", n, (0,), nm + ": points")
                same_vec(ctx, eng, o.st, o.st.read(O.plus(24), "vec"), "w", n, (0,), nm + ": weights")
                ctx.check(eng, o.st.fork(), eq(o.st.read(O.plus(48), "i64"), n), nm + ": npts()")
    ctx.run("constructors keep what the rule generated", ctor)

    def at():
        for fn, nm, v, off in (("vf_at_p", "points(i)", "p", 0), ("vf_at_w", "weights(i)", "w", 0), ("vf_at_ap", "points(i) of a 3-d rule", "p", 8)):
            eng = ctx.engine("sph")
            st = State(eng)
            n = pw(st, *((24, D3) if off else ()))
            i = var("i", "I")
            st.assume(ge(i, I(0)))
            st.assume(lt(i, I(1 << 64)))
            outs = eng.call(st, fn, [P, W, i], nm)
            for o in outs:
                if o.kind == "ret":
                    ctx.check(eng, o.st.fork(), lt(i, n), nm + ": returns only for i below the size")
                    s = o.st.fork()
                    s.assume(lt(i, n))
                    ctx.check(eng, s, eq(o.val, rd(v, i, off)), nm + ": is the i-th entry")
                elif o.kind == "throw":
                    ctx.check(eng, o.st.fork(), ge(i, n), nm + ": throws only for i at or beyond the size")
                else:
                    eng.fail(o.st, nm + ": no abort (%s)" % (o.val,))
    ctx.run("indexed access is bounds checked", at)

    def data():
        eng = ctx.engine("sph")
        st = State(eng)
        n = pw(st)
        i = var("i", "I")
        st.assume(ge(i, I(0)))
        st.assume(lt(i, n))
        st.mem["out"] = {}
        for o in runfn(ctx, eng, st, "vf_data", [P, W, i, O], "raw pointers"):
            for k, v in enumerate(("p", "w", "p", "w")):
                ctx.check(eng, o.st.fork(), eq(o.st.read(O.plus(8 * k) if k else O, "double"), rd(v, i)), "points_data/weights_data: entry i (%d)" % k)
    ctx.run("raw data pointers", data)

    def copies():
        for fn, nm, first in (("vf_qcopy", "copy of a quadrature, copy modified", "o1"), ("vf_qbcopy", "copy to the base class, source modified", "o2")):
            eng = ctx.engine("sph")
            st = State(eng)
            n = pw(st)
            st.assume(gt(n, I(0)))
            st.mem["o1"], st.mem["o2"] = {}, {}
            for o in runfn(ctx, eng, st, fn, [P, W, Ptr("o1", (0,)), Ptr("o2", (0,))], nm):
                q_ = Ptr(first, (0,))
                same_vec(ctx, eng, o.st, o.st.read(q_, "vec"), "p", n, (0,), nm + ": points of the other object")
                same_vec(ctx, eng, o.st, o.st.read(q_.plus(24), "vec"), "w", n, (0,), nm + ": weights of the other object")
                # and the modified object is otherwise equal
                q2 = Ptr("o2" if first == "o1" else "o1", (0,))
                for off, c in ((0, "p"), (24, "w")):
                    v = o.st.read(q2.plus(off) if off else q2, "vec")
                    ctx.check(eng, o.st.fork(), eq(v.len, n), nm + ": size of the modified object")
                    s = o.st.fork()
                    i = var("idx", "I")
                    s.assume(ge(i, I(1)))
                    s.assume(lt(i, n))
                    a = elem(ctx, eng, s, v, i, 0, nm)
                    if a is not None:
                        ctx.check(eng, s, eq(a, rd(c, i)), nm + ": other entries of the modified object")
    ctx.run("copies are equal and share no storage", copies)

    def sub_():
        eng = ctx.engine("sph")
        st = State(eng)
        n = pw(st)
        b, e = var("b", "I"), var("e", "I")
        st.assume(ge(b, I(0)))
        st.assume(lt(b, e))
        st.assume(le(e, n))
        st.mem["out"] = {}
        nm = "SubQuadrature [b,e)"
        for o in runfn(ctx, eng, st, "vf_sub", [P, W, b, e, O], nm):
            ctx.check(eng, o.st.fork(), eq(o.st.read(O.plus(48), "i64"), sub(e, b)), nm + ": npts() is e-b")
            for off, c in ((0, "p"), (24, "w")):
                v = o.st.read(O.plus(off) if off else O, "vec")
                ctx.check(eng, o.st.fork(), eq(v.len, sub(e, b)), nm + ": size")
                s = o.st.fork()
                i = var("idx", "I")
                s.assume(ge(i, I(0)))
                s.assume(lt(i, sub(e, b)))
                a = elem(ctx, eng, s, v, i, 0, nm)
                if a is not None:
                    ctx.check(eng, s, eq(a, rd(c, add(b, i))), nm + ": entry i is entry b+i of the rule")
    ctx.run("index ranges of a rule", sub_)


NATIVE = {p_: {"name": p_.lower()} for p_ in ("C06", "C07", "C08", "C17")}
