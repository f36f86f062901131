"""Contracts of the micro-batcher (C15)."""
import re
from .term import *
from .sym import *
from .prove import *
from . import algo, lib, loops
from .algo import EFact, EPerm, EPtrs, fresh_seq, key_of
from .lib import elemptr, base_of
from .spec_prim import outcomes
from .spec_sph import vec, rd, mkpt, runfn, D1, D3, elem, same_vec

D4 = {0: "double", 8: "double", 16: "double", 24: "double"}
ITLAY = {0: "ptr"}


def fn_of(eng, rx, nargs=None):
    c = [n for n, f in eng.fns.items() if re.match(rx, f["dem"]) and not f.get("decl") and (nargs is None or len(f["args"]) == nargs)]
    if len(c) != 1:
        raise Unsupported("%d functions match %s" % (len(c), rx))
    return c[0]


PBOX = r"auto IntegratorXX::detail::partition_box<double>\(unsigned long, std::array"


def engine(ctx, contracts=None):
    return ctx.engine("batch", contracts, builtins=algo.ALGO)


def inbox(s, a, base, i):
    lo, hi = a[:2]
    c = [base.get(s, i, 8 * k, "double") for k in range(3)]
    return [implies(and_(ge(i, lo), lt(i, hi)), and_(*[and_(le(a[2 + k], c[k]), le(c[k], a[5 + k])) for k in range(3)]))]


def mkrange(st):
    n, b, e = var("n", "I"), var("b", "I"), var("e", "I")
    for g in (ge(b, I(0)), lt(b, e), le(e, n), le(n, I(1 << 31))):
        st.assume(g)
    return n, b, e


def perm_chain(el, base, lo, hi, st, eng):
    """el is base permuted within [lo,hi): every layer permutes inside the range"""
    while el is not base:
        if isinstance(el, EFact):
            el = el.base
        elif isinstance(el, EPerm):
            if not (st.proves(ge(el.lo, lo)) and st.proves(le(el.hi, hi))):
                return False
            el = el.base
        else:
            return False
    return True


def strip(el):
    while isinstance(el, EFact):
        el = el.base
    return el


def check_its(ctx, eng, st, v, b, e, nm, qel=None):
    """v is a strictly increasing list of iterators from b to e"""
    if not isinstance(v, Vec):
        raise Unsupported("iterator list missing")
    ctx.check(eng, st.fork(), ge(v.len, I(1)), nm + ": at least one boundary")
    st.assume(ge(v.len, I(1)))
    s = st.fork()
    kl = key_of(s, v.el, sub(v.len, I(1)), ITLAY)[0]
    if qel is not None:
        # a point behind the last boundary would lie in none of the cells: read it
        s2 = s.fork()
        s2.assume(lt(kl, e))
        for o in (0, 8, 16):
            qel.get(s2, kl, o, "double")
        s.assume(not_(lt(kl, e))) if ctx.check(eng, s2, FALSE, nm + ": every point of the range lies in one of the cells (no point is lost)") else None
    ctx.check(eng, s, eq(kl, e), nm + ": the last boundary is the end of the range")
    s = st.fork()
    ctx.check(eng, s, eq(key_of(s, v.el, I(0), ITLAY)[0], b), nm + ": the first boundary is the begin of the range")
    st.assume(and_(eq(key_of(st, v.el, sub(v.len, I(1)), ITLAY)[0], e), eq(key_of(st, v.el, I(0), ITLAY)[0], b)))
    v.el.get(st, I(0), 0, "ptr")
    ctx.check(eng, st.fork(), ge(v.len, I(2)), nm + ": at least one part")
    s = st.fork()
    i = var("idx", "I")
    s.assume(and_(ge(i, I(0)), lt(add(i, I(1)), v.len)))
    x, y = key_of(s, v.el, i, ITLAY)[0], key_of(s, v.el, add(i, I(1)), ITLAY)[0]
    ctx.check(eng, s, lt(x, y), nm + ": parts are not empty")


def pbox(ctx, npart):
    eng = engine(ctx)
    fn = fn_of(eng, PBOX, 6)
    st = State(eng)
    n, b, e = mkrange(st)
    lo, up = mkpt(st, "lo"), mkpt(st, "up")
    base = EFact(EFun("q"), "inbox", inbox, (b, e) + tuple(lo) + tuple(up))
    st.mem["q"] = {0: Vec(n, base, 32, D4)}
    st.mem["its"] = {}
    q = Ptr("q", (0,))
    nm = "partition_box(%d)" % npart
    for k in range(3):
        # a non-empty range: the box is not inverted
        st.assume(le(lo[k], up[k]))
    outs = outcomes(ctx, eng, eng.call(st, fn, [Ptr("its", (0,)), I(npart), Ptr("lo", (0,)), Ptr("up", (0,)), elemptr(q, b, 32), elemptr(q, e, 32)], nm), nm)
    if not outs:
        eng.fail(st, nm + ": returns normally")
    for o in outs:
        s = o.st
        v = s.readvec(q)
        ctx.check(eng, s.fork(), eq(v.len, n), nm + ": number of points unchanged")
        ok = perm_chain(v.el, base, b, e, s, eng)
        if not ok:
            eng.fail(s.fork(), nm + ": the range is permuted, nothing else changes")
        else:
            eng.oblig(s, TRUE, nm + ": the range is permuted, nothing else changes")
        check_its(ctx, eng, s, s.read(Ptr("its", (0,)), "vec"), b, e, nm, v.el)


def pbox_contract(ok):
    def c(eng, st, args, f, path):
        """partition_box: the range is permuted and cut into non-empty parts"""
        out, npart, lo, up, pb, pe = args
        if not isconst(npart) or cval(npart) not in ok:
            raise Unsupported("partition_box called with an unverified number of cells")
        if st.ctrs:
            raise NeedHavoc("partition_box inside a summarised loop")
        x, y = base_of(pb), base_of(pe)
        if x is None or y is None or not x[0].same(y[0]) or x[2] or y[2]:
            raise Unsupported("range of partition_box")
        v = st.readvec(x[0])
        b, e = x[1], y[1]
        eng.oblig(st, and_(ge(b, I(0)), lt(b, e), le(e, v.len)), "partition_box: precondition: a non-empty range", "pre")
        s = st.fork()
        i = s.skolem("any", "I")
        s.assume(and_(ge(i, b), lt(i, e)))
        for k in range(3):
            l, u = st.read(lo.plus(8 * k), "double"), st.read(up.plus(8 * k), "double")
            t = elem2(s, v, i, 8 * k)
            eng.oblig(s, and_(le(l, t), le(t, u)), "partition_box: precondition: the box contains the points (axis %d)" % k, "pre")
        nm = st.fresh_name("pbox")
        st.write(x[0], Vec(v.len, EPerm(v.el, nm, b, e), v.esize, v.layout))
        n = st.skolem("len:" + nm, "I")
        st.assume(and_(ge(n, I(2)), le(n, I(cval(npart) ** 3 + 1)), le(n, add(sub(e, b), I(1)))))
        st.write(out, Vec(n, fresh_seq(eng, st, nm, n, (x[0], 32), ITLAY, b, e, True), 8, ITLAY))
        return [Outcome(st, "ret", None)]
    return c


def elem2(s, v, i, off):
    s.eng.mute += 1
    try:
        return v.el.get(s, i, off, "double")
    finally:
        s.eng.mute -= 1


def mkgrid(st):
    n, mx = var("n", "I"), var("maxsize", "I")
    st.assume(and_(ge(n, I(1)), le(n, I(1 << 31))))
    st.assume(and_(ge(mx, I(1)), lt(mx, I(1 << 64))))
    vec(st, "in", 0, "p", n, 24, D3)
    vec(st, "in", 24, "w", n)
    return n, mx


GEN = r"IntegratorXX::SphericalMicroBatcher<.*>::generate_batches\(\)$"
ACC = r"IntegratorXX::SphericalMicroBatcher<.*>::%s\(\)%s$"


def accessor(eng, st, this, name, const=""):
    """pointer / value returned by a public accessor of the batcher"""
    fn = fn_of(eng, ACC % (name, const))
    s = st.fork()
    eng.mute += 1
    try:
        o = eng.call(s, fn, [this], "accessor")
    finally:
        eng.mute -= 1
    if len(o) != 1 or o[0].kind != "ret":
        raise Unsupported("accessor " + name)
    return o[0].val


def bij_index(t, name, off):
    """t is name@off(x): the index x read from the original grid"""
    if isinstance(t, T) and t.op == "app" and t.args[0] == "%s@%d" % (name, off) and len(t.args) == 2:
        return t.args[1]
    return None


def is_bijection(j, i):
    """j is i transported through permutation layers"""
    while j is not i:
        if j.op == "app" and j.args[0].startswith("perm:") and len(j.args) == 2:
            j = j.args[1]
        else:
            return False
    return True


def check_permuted(ctx, eng, st, p, w, n, nm):
    """(p, w) is a permutation of the original pairs"""
    if not isinstance(p, Vec) or not isinstance(w, Vec):
        raise Unsupported("containers missing")
    ctx.check(eng, st.fork(), eq(p.len, n), nm + ": number of points unchanged")
    ctx.check(eng, st.fork(), eq(w.len, n), nm + ": number of weights unchanged")
    s = st.fork()
    i = var("idx", "I")
    s.assume(and_(ge(i, I(0)), lt(i, n)))
    src = None
    for v, name, offs in ((p, "p", (0, 8, 16)), (w, "w", (0,))):
        for o in offs:
            t = elem(ctx, eng, s, v, i, o, nm + ": element")
            if t is None:
                return
            j = bij_index(t, name, o)
            if j is None or not is_bijection(j, i):
                raise Unsupported("contents of the batched grid: %s" % show(t)[:80])
            if src is None:
                src = j
            ctx.check(eng, s.fork(), eq(j, src), nm + ": point and weight of entry i come from the same original entry")
    if src is not None:
        ctx.check(eng, s.fork(), and_(ge(src, I(0)), lt(src, n)), nm + ": every entry comes from the original grid (as a bijection)")


def idx_key(st, v, i):
    return v.el.get(st, i, 0, "i64")


def recall(eng, s, idxs):
    """instantiate, at the given indices, the facts known of the local lists of indices and
    iterators (contract facts of the library algorithms and verified loop invariants)"""
    eng.mute += 1
    try:
        for v in s.lists:
            if list(v.layout or {}) == [0] and v.layout[0] in ("ptr", "i64"):
                for i in idxs:
                    if s.proves(and_(ge(i, I(0)), lt(i, v.len))):
                        v.el.get(s, i, 0, v.layout[0])
    finally:
        eng.mute -= 1


def check_idx(ctx, eng, st, v, n, mx, nm):
    """boundaries 0 = b_0 < b_1 < ... < b_k = n with gaps of at most mx"""
    ctx.check(eng, st.fork(), ge(v.len, I(2)), nm + ": at least one batch")
    st.assume(ge(v.len, I(2)))
    s = st.fork()
    recall(eng, s, [I(0)])
    ctx.check(eng, s, eq(idx_key(s, v, I(0)), I(0)), nm + ": the first batch starts at 0")
    s = st.fork()
    recall(eng, s, [sub(v.len, I(1))])
    ctx.check(eng, s, eq(idx_key(s, v, sub(v.len, I(1))), n), nm + ": the last batch ends at the number of points")
    s = st.fork()
    i = var("idx", "I")
    s.assume(and_(ge(i, I(0)), lt(add(i, I(1)), v.len)))
    recall(eng, s, [i, add(i, I(1))])
    a, b = idx_key(s, v, i), idx_key(s, v, add(i, I(1)))
    ctx.check(eng, s.fork(), lt(a, b), nm + ": no batch is empty")
    ctx.check(eng, s.fork(), le(sub(b, a), mx), nm + ": no batch exceeds the maximum size")


def make(ctx):
    eng = engine(ctx)
    eng.contracts[eng.fns[fn_of(eng, PBOX, 6)]["dem"]] = pbox_contract({2, 3})
    gen = fn_of(eng, GEN, 2)
    gdem = eng.fns[gen]["dem"]
    st = State(eng)
    n, mx = mkgrid(st)
    st.mem["out"], st.mem["nums"], st.mem["ghost"] = {}, {}, {}
    nm = "generate_batches"

    def wrapper(e, s, args, f, path):
        """the body, checked against its contract at every exit"""
        del e.contracts[gdem]
        out, this = args
        pp, ww = accessor(e, s, this, "points"), accessor(e, s, this, "weights")
        ctx.check(e, s.fork(), eq(accessor(e, s, this, "max_batch_size", " const"), mx), nm + ": the maximum batch size is the requested one")
        before = {r: dict(c) for r, c in s.mem.items() if r != out.root}
        try:
            outs = outcomes(ctx, e, e.run_function(s, gen, args, path), nm)
        finally:
            e.contracts[gdem] = wrapper
        if not outs:
            e.fail(s, nm + ": returns normally")
        for o in outs:
            t = o.st
            for r, c in before.items():
                for off in set(c) | set(t.mem.get(r, {})):
                    if (r, off) in ((pp.root, pp.path[0]), (ww.root, ww.path[0])):
                        continue
                    if not loops.same_cell(c.get(off, UNDEF), t.mem.get(r, {}).get(off, UNDEF)):
                        e.fail(t.fork(), nm + ": modifies nothing but the points and weights")
            v = t.read(out, "vec")
            if not isinstance(v, Vec):
                raise Unsupported("result of generate_batches")
            check_idx(ctx, e, t, v, n, mx, nm)
            check_permuted(ctx, e, t, t.read(pp, "vec"), t.read(ww, "vec"), n, nm)
            t.write(Ptr("ghost", (0,)), v)
        return outs
    eng.contracts[gdem] = wrapper
    outs = runfn(ctx, eng, st, "vf_make", [Ptr("in", (0,)), mx, Ptr("out", (0,)), Ptr("nums", (0,))], "construction")
    nm = "SphericalMicroBatcher(size, grid)"
    for o in outs:
        s = o.st
        rd_ = lambda off, ty="vec": s.read(Ptr("out", (off,)), ty)
        check_permuted(ctx, eng, s, rd_(96), rd_(120), n, nm)
        g = s.read(Ptr("ghost", (0,)), "vec")
        ctx.check(eng, s.fork(), eq(rd_(144, "i64"), sub(g.len, I(1))), nm + ": nbatches() is the number of index ranges")
        for k, (t, l) in enumerate(((n, "npts() is the number of points"), (mx, "max_batch_size() is the requested size"), (n, "points().size()"), (n, "weights().size()"), (n, "quadrature().points().size()"))):
            ctx.check(eng, s.fork(), eq(s.read(Ptr("nums", (8 * k,)), "i64"), t), nm + ": " + l)


def gen_contract(mx, n, i=None):
    """the contract make() verifies the body against; i: a batch index assumed to exist"""
    def c(eng, st, args, f, path):
        """generate_batches: index ranges, grid permuted"""
        out, this = args
        pp, ww = accessor(eng, st, this, "points"), accessor(eng, st, this, "weights")
        p, w = st.readvec(pp), st.readvec(ww)
        eng.oblig(st, and_(ge(p.len, I(1)), eq(p.len, w.len)), "generate_batches: precondition: a non-empty grid", "pre")
        m = accessor(eng, st, this, "max_batch_size", " const")
        if st.ctrs:
            raise Unsupported("generate_batches inside a loop")
        nm = st.fresh_name("batches")
        st.write(pp, Vec(p.len, EPerm(p.el, nm, I(0), p.len), p.esize, p.layout))
        st.write(ww, Vec(w.len, EPerm(w.el, nm, I(0), w.len), w.esize, w.layout))
        k = st.skolem("len:" + nm, "I")
        st.assume(and_(ge(k, I(2)), le(k, add(p.len, I(1)))))
        if i is not None:
            st.assume(lt(add(i, I(1)), k))

        def extra(s, a, b, i, key):
            return [implies(and_(ge(i, I(0)), lt(add(i, I(1)), a[1])), le(sub(b.get(s, add(i, I(1)), 0, "i64"), key), a[0])),
                    implies(and_(ge(i, I(1)), lt(i, a[1])), le(sub(key, b.get(s, sub(i, I(1)), 0, "i64")), a[0]))]
        v = fresh_seq(eng, st, nm, k, None, {0: "i64"}, I(0), p.len, True, extra)
        v.args = v.args + (m, k)
        r = Vec(k, v, 8, {0: "i64"})
        st.write(out, r)
        st.mem["ghost"] = {0: r, 24: st.readvec(pp), 48: st.readvec(ww)}
        return [Outcome(st, "ret", None)]
    return c


def batch_checks(ctx, eng, s, i, n, mx, nm, c=None):
    """res at out is batch i; c: the centre the batched grid was moved to"""
    g = s.read(Ptr("ghost", (0,)), "vec")
    rd_ = lambda off, ty="vec": s.read(Ptr("out", (off,)), ty)
    a, b = idx_key(s, g, i), idx_key(s, g, add(i, I(1)))
    p, w, P, W = rd_(48), rd_(72), rd_(96), rd_(120)
    if not all(isinstance(v, Vec) for v in (p, w, P, W)):
        raise Unsupported("containers of a batch")
    m = sub(b, a)
    ctx.check(eng, s.fork(), eq(p.len, m), nm + ": number of points of the batch")
    ctx.check(eng, s.fork(), eq(w.len, m), nm + ": number of weights of the batch")
    ctx.check(eng, s.fork(), and_(ge(m, I(1)), le(m, mx)), nm + ": between one and the maximum number of points")
    ctx.check(eng, s.fork(), eq(rd_(144, "i64"), sub(g.len, I(1))), nm + ": nbatches()")
    t = s.fork()
    j = var("idx", "I")
    t.assume(and_(ge(j, I(0)), lt(j, m)))
    xs = []
    G = {24: s.read(Ptr("ghost", (24,)), "vec"), 48: s.read(Ptr("ghost", (48,)), "vec")}
    for V, go, offs in ((P, 24, (0, 8, 16)), (W, 48, (0,))):
        q = s.fork()
        l = var("idx", "I")
        q.assume(and_(ge(l, I(0)), lt(l, n)))
        ctx.check(eng, s.fork(), eq(V.len, n), nm + ": size of the batched grid")
        for o in offs:
            x = elem(ctx, eng, q, V, l, o, nm + ": grid element")
            y = elem(ctx, eng, q, G[go], l, o, nm + ": element of the grid when it was batched")
            if x is None or y is None:
                return
            if c is not None and go == 24:
                y = add(y, c[o // 8])
            ctx.check(eng, q.fork(), eq(x, y), nm + ": the batched grid is the permuted grid%s" % (" moved to the new centre" if c else ""))
    for v, V, offs in ((p, P, (0, 8, 16)), (w, W, (0,))):
        for o in offs:
            x = elem(ctx, eng, t, v, j, o, nm + ": element")
            y = elem(ctx, eng, t, V, add(a, j), o, nm + ": grid element")
            if x is None or y is None:
                return
            xs.append(x)
            ctx.check(eng, t.fork(), eq(x, y), nm + ": entry j of batch i is entry b_i + j of the grid")
    for k in range(3):
        lo, up = rd_(8 * k, "double"), rd_(24 + 8 * k, "double")
        ctx.check(eng, t.fork(), and_(le(lo, xs[k]), le(xs[k], up)), nm + ": the box contains the points (axis %d)" % k)
        for z, l in ((lo, "lower"), (up, "upper")):
            # the face is attained by a point of the batch: the witness is the index it was read from
            q = z
            f = find_attained(eng, t, P, a, m, z, 8 * k)
            if f is None:
                raise Unsupported("witness of the box face")
            ctx.check(eng, t.fork(), f, nm + ": the %s face of axis %d is attained by a point of the batch" % (l, k))


def find_attained(eng, s, P, a, m, z, off):
    """z == P[w] for a w in [a, a+m): candidates are the extremal positions named by the library contracts"""
    cands = [x for x in all_args(s.facts) if x.op in ("var", "app") and str(x.args[0]).startswith("arg")]
    res = []
    for w in cands:
        eng.mute += 1
        try:
            t = P.el.get(s, w, off, "double")
        finally:
            eng.mute -= 1
        if isinstance(t, T):
            g = and_(ge(w, a), lt(w, add(a, m)), eq(z, t))
            if s.proves(g):
                return g
            res.append(g)
    return or_(*res) if res else None


def all_args(facts):
    out, seen = [], set()
    for f in facts:
        for x in atoms(f):
            if x not in seen and x.sort == "I":
                seen.add(x)
                out.append(x)
    return out


def api(ctx, fn, nm, ix="i", pre=None, cen=None):
    eng = engine(ctx)
    st = State(eng)
    n, mx = mkgrid(st)
    eng.contracts[eng.fns[fn_of(eng, GEN, 2)]["dem"]] = gen_contract(mx, n)
    st.mem["out"], st.mem["ghost"] = {}, {}
    i = I(0) if ix is None else var("i", "I")
    if pre:
        eng.contracts[eng.fns[fn_of(eng, GEN, 2)]["dem"]] = gen_contract(mx, n, i)
    if ix is not None:
        st.assume(and_(ge(i, I(0)), lt(i, I(1 << (64 if ix == "i" else 31)))))
    args = [Ptr("in", (0,)), mx] + ([i] if ix is not None else []) + [Ptr("out", (0,))]
    c = [var("c%d" % k, "R") for k in range(3)] if cen else None
    outs = eng.call(st, fn, args + (c or []), nm)
    got = 0
    for o in outs:
        s = o.st
        g = s.mem.get("ghost", {}).get(0)
        if not isinstance(g, Vec):
            raise Unsupported("generate_batches not reached")
        inr = lt(add(i, I(1)), g.len)
        if o.kind == "throw":
            ctx.check(eng, s, not_(inr), nm + ": throws only for an index out of range")
            continue
        if o.kind != "ret":
            eng.fail(s, nm + ": terminates normally")
            continue
        if pre is None:
            ctx.check(eng, s.fork(), inr, nm + ": an index out of range throws")
        s.assume(inr)
        if not eng.feasible(s):
            continue
        got += 1
        batch_checks(ctx, eng, s, i, n, mx, nm, c if cen == "moved" else None)
    if not got:
        eng.fail(st, nm + ": returns a batch")


def count(ctx, fn="vf_count", nm="iteration from begin() to end()"):
    eng = engine(ctx)
    st = State(eng)
    n, mx = mkgrid(st)
    eng.contracts[eng.fns[fn_of(eng, GEN, 2)]["dem"]] = gen_contract(mx, n)
    st.mem["out"], st.mem["ghost"] = {}, {}
    for o in runfn(ctx, eng, st, fn, [Ptr("in", (0,)), mx, Ptr("out", (0,))], nm):
        g = o.st.read(Ptr("ghost", (0,)), "vec")
        ctx.check(eng, o.st.fork(), eq(o.val, sub(g.len, I(1))), nm + ": visits every batch once")
        ctx.check(eng, o.st.fork(), eq(o.st.read(Ptr("out", (144,)), "i64"), o.val), nm + ": nbatches() batches")


def source(ctx):
    eng = engine(ctx)
    st = State(eng)
    n, mx = mkgrid(st)
    eng.contracts[eng.fns[fn_of(eng, GEN, 2)]["dem"]] = gen_contract(mx, n)
    st.mem["src"], st.mem["ghost"] = {}, {}
    nm = "batching a grid passed by reference"
    for o in runfn(ctx, eng, st, "vf_source", [Ptr("in", (0,)), mx, Ptr("src", (0,))], nm):
        for off, name, cs in ((0, "p", (0, 8, 16)), (24, "w", (0,))):
            same_vec(ctx, eng, o.st, o.st.read(Ptr("src", (off,)), "vec"), name, n, cs, nm + ": the caller's grid keeps its %s" % ("points" if name == "p" else "weights"))


def c15(ctx):
    ctx.tu("batch")
    ctx.assume("library contracts (trusted, vf/algo.py): std::partition, std::minmax_element, std::any_of, std::sort, std::unique, std::set_union")
    ctx.assume("batching terminates (partial correctness: for a maximum size below the multiplicity of a point it never returns)")
    # a strictly increasing list 0 = b_0 < ... < b_k = n splits [0,n) into k non-empty ranges
    ctx.lean(["ranges_cover", "ranges_unique", "ranges_bound", "step_mono"])
    ctx.spawn("SphericalMicroBatcher::generate_batches and construction", lambda: make(ctx))
    for k in (2, 3):
        ctx.spawn("detail::partition_box with %d cells per axis" % k, lambda k=k: pbox(ctx, k))
    for fn, nm in (("vf_at", "at(i)"), ("vf_cat", "const at(i)"), ("vf_move", "batcher of a temporary grid, at(i)"), ("vf_shared", "batcher of a shared grid, at(i)"),
                   ("vf_clone", "clone(), at(i)"), ("vf_copy", "copy, at(i)"), ("vf_moved", "moved batcher, at(i)"), ("vf_mk", "make_batcher(n, const grid), at(i)"),
                   ("vf_mkl", "make_batcher(n, grid), at(i)"), ("vf_mkmove", "make_batcher(n, temporary grid), at(i)")):
        ctx.spawn("SphericalMicroBatcher: " + nm, lambda fn=fn, nm=nm: api(ctx, fn, nm))
    for fn, nm, ix in (("vf_iter", "i increments of begin()", "i"), ("vf_citer", "i post-increments of cbegin()", "i"), ("vf_post", "*(it++)", None),
                       ("vf_plus", "begin() + i", "i32"), ("vf_cplus", "cbegin() + i", "i32")):
        ctx.spawn("SphericalMicroBatcher: " + nm, lambda fn=fn, nm=nm, ix=ix: api(ctx, fn, nm, ix, True))
    for fn, nm, cen in (("vf_recenter", "recenter(c), at(i)", "moved"), ("vf_recenter2", "quadrature().recenter(c), at(i)", "moved"),
                        ("vf_sep", "clone, original recentred, at(i)", "kept"), ("vf_sep2", "original, clone recentred, at(i)", "kept")):
        ctx.spawn("SphericalMicroBatcher: " + nm, lambda fn=fn, nm=nm, cen=cen: api(ctx, fn, nm, cen=cen))
    for fn, nm in (("vf_count", "iteration from begin() to end()"), ("vf_ccount", "iteration from cbegin() to cend()"), ("vf_range", "post-increments from begin() to end()")):
        ctx.spawn("SphericalMicroBatcher: " + nm, lambda fn=fn, nm=nm: count(ctx, fn, nm))
    ctx.spawn("SphericalMicroBatcher: source grid", lambda: source(ctx))
    ctx.join()


NATIVE = {"C15": {"name": "c15"}}
