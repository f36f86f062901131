"""Contracts of the angular families (C10, C11, C12)."""
import re
from .term import *
from .sym import *
from .sym import PI
from .prove import *
from .spec_prim import outcomes

FAMS = {"LebedevLaikov": ("lebedev_laikov", True), "Delley": ("delley", True), "AhrensBeylkin": ("ahrens_beylkin", False), "Womersley": ("womersley", False)}
MIN, MAX = -(1 << 63), (1 << 63) - 1
W64 = 1 << 64


def unit(f):
    return "s2:FAM=%s:HDR=%s" % (f, FAMS[f][0])


def sgn(t):
    """value of a returned constant as int64_t"""
    if not isconst(t):
        return None
    v = int(cval(t))
    return v - W64 if v > MAX else v


def paths(ctx, eng, fn, name, extra=lambda x: []):
    """symbolic execution over all 2^64 arguments: [(state, x, value)] with x the signed argument"""
    out = []
    for half in (0, 1):
        st = State(eng)
        x = var("x", "I")
        if half:
            st.assume(lt(x, I(0)))
            st.assume(ge(x, I(MIN)))
            a = add(x, I(W64))
        else:
            st.assume(ge(x, I(0)))
            st.assume(le(x, I(MAX)))
            a = x
        for f in extra(x):
            st.assume(f)
        for o in outcomes(ctx, eng, eng.call(st, fn, [a], name), name):
            v = o.val
            if isinstance(v, T) and not isconst(v):
                # a term: pinned by the path?
                pass
            out.append((o.st, x, v))
    return out


def lookup(ctx, eng, fn, name):
    """the finite table computed by a lookup: {arg: value}; obligations: every path either
    pins the argument to one constant or returns -1"""
    tab = {}
    for st, x, v in paths(ctx, eng, fn, name):
        s = sgn(v)
        if s is None:
            raise Unsupported("%s returns a non-constant %s" % (name, show(v)[:80]))
        if s == -1:
            continue
        # the argument of this path
        c = None
        for f in st.facts:
            if f.op == "eq0":
                l = lin(f.args[0], x)
                if l and l[0].op == "const" and isconst(l[1]) and abs(l[0].args[0]) == 1:
                    c = int(-l[1].args[0] * l[0].args[0])
        if c is None:
            r = solver.model_value(list(st.facts), x) if hasattr(solver, "model_value") else None
            c = r
        ctx.check(eng, st.fork(), eq(x, I(c)) if c is not None else FALSE, "%s: value %d only for one argument" % (name, s))
        if c is not None:
            tab[c] = s
    return tab


def concrete(ctx, eng, fn, name, v):
    st = State(eng)
    outs = outcomes(ctx, eng, eng.call(st, fn, [I(v % W64)], name), name)
    if len(outs) != 1:
        return None
    return sgn(outs[0].val)


def c10(ctx):
    ctx.preload([unit(f) for f in FAMS])
    def family(fam):
        def go():
            eng = ctx.engine(unit(fam))
            np_ = lookup(ctx, eng, "vf_np", fam + "::npts_by_algebraic_order")
            ord_ = lookup(ctx, eng, "vf_or", fam + "::algebraic_order_by_npts")
            st = State(eng)
            T_ = lambda c, what: eng.oblig(st, TRUE if c else FALSE, "%s: %s" % (fam, what), "post")
            T_(len(np_) > 0, "some order is supported")
            for o, n in sorted(np_.items()):
                T_(ord_.get(n) == o, "order_by_npts(npts_by_order(%d)) is %d" % (o, o))
                T_(o >= 0 and n > 0, "order %d and size %d are not negative" % (o, n))
            for n, o in sorted(ord_.items()):
                T_(np_.get(o) == n, "npts_by_order(order_by_npts(%d)) is %d" % (n, n))
            so = sorted(np_)
            for a, b in zip(so, so[1:]):
                T_(np_[a] < np_[b], "size increases from order %d to %d" % (a, b))
            # next order: for every argument the least supported order not below it
            for st_, x, v in paths(ctx, eng, "vf_nx", fam + "::next_algebraic_order"):
                r = sgn(v)
                nm = "%s::next_algebraic_order returns %s" % (fam, r if r is not None else show(v)[:40])
                if r is None and isinstance(v, T) and v.sort == "I":
                    sv = v if not any(f is lt(x, I(0)) for f in st_.facts) else sub(v, I(W64))
                    alts = [and_(eq(sv, I(t)), gt(x, I(so[k - 1])) if k else TRUE, le(x, I(t)) if k + 1 < len(so) else TRUE) for k, t in enumerate(so)]
                    ctx.check(eng, st_.fork(), or_(*alts), nm + ": the least supported order >= the argument")
                    continue
                if r is None or r not in np_:
                    ctx.check(eng, st_.fork(), FALSE, nm + ": a supported order")
                    continue
                k = so.index(r)
                lo = gt(x, I(so[k - 1])) if k else TRUE
                hi = le(x, I(r)) if k + 1 < len(so) else TRUE
                ctx.check(eng, st_.fork(), and_(lo, hi), nm + " exactly when it is the least supported order >= the argument")
        ctx.spawn(fam + " lookups", go)
    for fam in FAMS:
        family(fam)
    ctx.join()


def table_value(eng, t):
    """the term with reads of constant tables at constant positions evaluated"""
    def go(u):
        if u.op == "app" and u.args[0].startswith("tbl:") and "@" in u.args[0] and isconst(u.args[1]):
            root, off = u.args[0][4:].rsplit("@", 1)
            g = eng.globals[root]
            stride = 24 if g["dem"].endswith("::points") else 8
            v = eng.const_at(g["init"], g["ty"], cval(u.args[1]) * stride + int(off), "double")
            return u if v is None else v
        return rebuild(u, go)
    return go(t)


def by_value(ctx, eng, st, v, r, c, n, name, scaled, tabs):
    """entries 0..n-1 one by one against the table of the rule with n entries"""
    leaf = {"p": "::points", "w": "::weights"}[r]
    es = {"p": 24, "w": 8}[r]
    eng.mute += 1
    try:
        got = [table_value(eng, x) if isinstance(x, T) else None for x in (v.el.get(st.fork(), I(k), c, "double") for k in range(n))]
    finally:
        eng.mute -= 1
    what = "%s: %s is the tabulated one" % (name, "coordinate %d of every point" % (c // 8) if r == "p" else "every weight" + (" times 4 pi" if scaled else ""))
    for root, g in eng.globals.items():
        if g["dem"].endswith(leaf) and g.get("const") and "init" in g and g["size"] == n * es:
            want = [eng.const_at(g["init"], g["ty"], k * es + c, "double") for k in range(n)]
            if r == "w" and scaled:
                want = [None if w is None else mul(scale(PI, 4), w) for w in want]
            if all(a is not None and b is not None and (a is b or cval(a) == cval(b) if isconst(a) and isconst(b) else a is b) for a, b in zip(got, want)):
                tabs.setdefault(r, set()).add(root)
                for _ in range(n):
                    eng.oblig(st, TRUE, what)
                return
    ctx.check(eng, st, FALSE, what)


def c11(ctx):
    ctx.preload([unit(f) for f in FAMS])
    def family(fam, scaled):
        sup = {}

        def build(n):
            eng = ctx.engine(unit(fam))
            st = State(eng)
            for r in "pwm":
                st.mem[r] = {}
            e0 = Vec(I(0), EUninit(), 24, {0: "double", 8: "double", 16: "double"})
            st.write(Ptr("p", (0,)), e0)
            st.write(Ptr("w", (0,)), Vec(I(0), EUninit(), 8, {0: "double"}))
            return eng, st

        def table_():
            eng = ctx.engine(unit(fam))
            sup.update(lookup(ctx, eng, "vf_or", fam + "::algebraic_order_by_npts"))
            st = State(eng)
            for n, o in sup.items():
                eng.oblig(st, TRUE if o >= 0 else FALSE, "%s: order of size %d is not negative" % (fam, n))
        ctx.run(fam + ": supported sizes", table_)
        if not sup:
            return

        def good(sizes_):
            for n in sizes_:
                eng, st = build(n)
                name = "%s(%d)" % (fam, n)
                for o in outcomes(ctx, eng, eng.call(st, "vf_mk", [I(n % W64), Ptr("p", (0,)), Ptr("w", (0,)), Ptr("m", (0,))], name), name):
                    ctx.check(eng, o.st.fork(), eq(o.st.read(Ptr("m", (0,)), "i64"), I(n)), name + ": npts()")
                    tabs = {}
                    for r, comps in (("p", (0, 8, 16)), ("w", (0,))):
                        v = o.st.read(Ptr(r, (0,)), "vec")
                        ctx.check(eng, o.st.fork(), eq(v.len, I(n)), name + ": number of " + {"p": "points", "w": "weights"}[r])
                        s = o.st.fork()
                        i = var("idx", "I")
                        s.assume(ge(i, I(0)))
                        s.assume(lt(i, I(n)))
                        for c in comps:
                            a = v.el.get(s, i, c, "double")
                            tb = {t.args[0][4:].rsplit("@", 1)[0] for t in subterms(a) if t.op == "app" and t.args[0].startswith("tbl:")} if isinstance(a, T) else ()
                            if len(tb) != 1:
                                # element-wise code (an unrolled copy): every entry has its own value
                                by_value(ctx, eng, o.st, v, r, c, n, name, scaled, tabs)
                                continue
                            root, = tb
                            tabs.setdefault(r, set()).add(root)
                            want = app("tbl:%s@%d" % (root, c), (i,), "R")
                            if r == "w" and scaled:
                                want = mul(scale(PI, 4), want)
                            ctx.check(eng, s, eq(a, want), "%s: %s is the tabulated one" % (name, "coordinate %d of point i" % (c // 8) if r == "p" else "weight i" + (" times 4 pi" if scaled else "")))
                            sz = eng.globals[root]["size"]
                            ctx.check(eng, s, TRUE if sz == n * (24 if r == "p" else 8) else FALSE, "%s: the table of %s has %d entries" % (name, r, n))
                    dems = {r: {eng.globals[t]["dem"].rsplit("::", 1)[0] for t in ts} for r, ts in tabs.items()}
                    ctx.check(eng, o.st.fork(), TRUE if len(set().union(*dems.values())) == 1 else FALSE, name + ": points and weights come from the same tabulated rule")
        ns = sorted(sup)
        for k in range(3):
            ctx.spawn("%s: supported sizes are built from their tables (%d/3)" % (fam, k + 1), lambda k=k: good(ns[k::3]))

        def bad():
            eng, st = build(None)
            m = var("npts", "I")
            st.assume(ge(m, I(0)))
            st.assume(le(m, I(Engine.MAXLEN)))
            for n in sup:
                st.assume(not_(eq(m, I(n))))
            name = "%s(unsupported size)" % fam
            n_ = 0
            for o in eng.call(st, "vf_mk", [m, Ptr("p", (0,)), Ptr("w", (0,)), Ptr("m", (0,))], name):
                n_ += 1
                if o.kind == "throw":
                    eng.oblig(o.st, TRUE, name + ": throws", "post")
                elif o.kind == "ret":
                    eng.fail(o.st, name + ": a grid is returned for a size the order lookup does not know", "post")
                else:
                    eng.fail(o.st, name + ": no abort (%s)" % o.val, "post")
            eng.oblig(st, TRUE if n_ else FALSE, name + ": some outcome", "post")
        ctx.spawn(fam + ": unsupported sizes", bad)

    for fam, (hdr, scaled) in FAMS.items():
        family(fam, scaled)
    ctx.join()



def c12(ctx):
    """the set of supported rules is the complete one found symbolically; each is then
    evaluated natively (ground) against every spherical harmonic"""
    ctx.preload([unit(f) for f in FAMS])
    lst = []
    for k, fam in enumerate(FAMS):
        def go():
            eng = ctx.engine(unit(fam))
            for n, o in sorted(lookup(ctx, eng, "vf_or", fam + "::algebraic_order_by_npts").items()):
                eng.oblig(State(eng), TRUE if n > 0 and o >= 0 else FALSE, "%s: size %d and order %d are not negative" % (fam, n, o))
                if n > 0 and o >= 0:
                    lst.append((k, n))
        ctx.run(fam + ": supported sizes and orders", go)
    ctx.native_env = {"VF_LIST": " ".join("%d %d" % x for x in lst)}
    ctx.n_rules = len(lst)


def after_native(ctx, nat):
    if ctx.pid != "C12":
        return
    n, d = nat.stats.pop("ground_obligations", 0), nat.stats.pop("ground_discharged", 0)
    ctx.ground_obligations, ctx.ground_proved = n, d
    ctx.ground_report = {"what": "ground obligations (unit sphere, weight sum, all harmonics up to the order) per supported rule, evaluated on the constructed rule in 64-bit-mantissa arithmetic within a stated tolerance: "
                         "|x|^2-1 1e-14, weight sum 8e-15, harmonics 4e-14 (Ahrens-Beylkin 1e-12 up to 4000 points, 4e-12 above)",
                         "rules_found_symbolically": ctx.n_rules, "rules_evaluated": nat.stats.get("tables"), "obligations": n, "discharged": d}
    ctx.extra_coverage = {"exhaustive": True, "evaluations": nat.stats.get("evaluations", 0), "distinct_nontrivial": nat.stats.get("evaluations", 0) - nat.stats.get("tables", 0),
                          "rule": "one evaluation per (supported rule, harmonic l,m up to the advertised order); non-trivial: l >= 1; the set of supported rules is the complete one found by symbolic execution of the order lookup over all 2^64 arguments"}
    if not nat.error and nat.stats.get("tables", 0) < ctx.n_rules and not nat.fails:
        ctx.ground_fails = ["%d supported rules were found symbolically but only %d could be evaluated" % (ctx.n_rules, nat.stats.get("tables", 0))]


def c11_tables(d):
    import glob, os
    out = []
    for k, (fam, (hdr, _)) in enumerate(FAMS.items()):
        seen = set()
        for h in sorted(glob.glob(os.path.join(REPO, "include/integratorxx/quadratures/s2", hdr, "*.hpp"))):
            for nm, n in re.findall(r"struct\s+(%s_(\d+))\b" % hdr, open(h).read()):
                if nm not in seen:
                    seen.add(nm)
                    out.append("put<%sGrids::%s<double>>(T[%d], %s);" % (fam, nm, k, n))
    with open(os.path.join(d, "c11_tables.inc"), "w") as f:
        f.write("static void fill() {\n" + "\n".join(out) + "\n}\n")


NATIVE = {"C10": {"name": "c10", "flags": ["-O1"]},
          "C11": {"name": "c11", "flags": ["-O1"], "prep": c11_tables},
          "C12": {"name": "c12", "flags": ["-O2", "-pthread"], "timeout": 300}}

LEVEL = {"C12": "exploration"}
