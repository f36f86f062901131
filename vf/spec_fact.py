"""Run-time factories and names (C13)."""
from .term import *
from .sym import *
from .prove import *
from .spec_prim import outcomes, sizes
from .spec_sph import vec, mkpt, rd, elem, runfn, prod_contract, prod_functions, D1, D3
from .spec_prune import kind
from . import lib

TU = "gen"
U32, U64 = (1 << 32) - 1, (1 << 64) - 1
RADS = {"Bk": ("Becke", "BeckeRadialTraits"), "Mh": ("MurrayHandyLaming", "MurrayHandyLamingRadialTraits<2ul>"),
        "Mk": ("MuraKnowles", "MuraKnowlesRadialTraits"), "Ta": ("TreutlerAhlrichs", "TreutlerAhlrichsRadialTraits")}
ANGS = {"ah": "AhrensBeylkin", "de": "Delley", "ll": "LebedevLaikov", "wo": "Womersley"}
RNAMES = {"Bk": ["BECKE"], "Mk": ["MURAKNOWLES", "MK"], "Mh": ["MURRAYHANDYLAMING", "MHL"], "Ta": ["TREUTLERAHLRICHS", "TA"]}
ANAMES = {"ah": ["AHRENSBEYLKIN", "AB"], "de": ["DELLEY"], "ll": ["LEBEDEVLAIKOV", "LEBEDEV", "LL"], "wo": ["WOMERSLEY"]}


def uvar(st, name, hi, lo=0):
    v = var(name, "I")
    st.assume(ge(v, I(lo)))
    st.assume(le(v, I(hi)))
    return v


# ------------------------------------------------------------------ contracts of the rules
def sup(f, n):
    return app("supported_" + f, (n,), "B")


def ang_contract(f, always=False):
    """throws unless the size is supported, otherwise n points and weights that are a function of n (C11)"""
    def c(eng, st, args, fn, path):
        out, n = args[0], args[1]
        outs = []
        if always:                       # every size in the request is supported (precondition of the case)
            st.assume(le(n, I(Engine.MAXLEN)))
            st.write(out.plus(24), Vec(n, EFun("ANGP_" + f, (n,)), 24, D3))
            st.write(out, Vec(n, EFun("ANGW_" + f, (n,)), 8, D1))
            return [Outcome(st, "ret", None)]
        s2 = st.fork()
        if st.branch(sup(f, n)) is not False and eng.feasible(st):
            st.assume(le(n, I(Engine.MAXLEN)))
            st.write(out.plus(24), Vec(n, EFun("ANGP_" + f, (n,)), 24, D3))
            st.write(out, Vec(n, EFun("ANGW_" + f, (n,)), 8, D1))
            outs.append(Outcome(st, "ret", None))
        if s2.branch(not_(sup(f, n))) is not False and eng.feasible(s2):
            outs.append(Outcome(s2, "throw", "std::runtime_error"))
        return outs
    return c


def fields(eng, st, p):
    """the data members of the parameter object at p, in order"""
    return [v for o, v in sorted((k, v) for k, v in st.mem[p.root].items() if k >= p.path[0]) if isinstance(v, T)]


def rad_contract(s):
    """as many points and weights as the parameters say, a function of the parameters (C05)"""
    def c(eng, st, args, fn, path):
        out, tr = args[0], args[1]
        a = fields(eng, st, tr)
        n = a[0]
        st.write(out.plus(24), Vec(n, EFun("RADP_" + s, tuple(a)), 8, D1))
        st.write(out, Vec(n, EFun("RADW_" + s, tuple(a)), 8, D1))
        return [Outcome(st, "ret", None)]
    return c


def contracts(eng, prod=(), always=False):
    c = {}
    for n, f in eng.fns.items():
        d = f["dem"]
        if f.get("decl") or "::generate(" not in d:
            continue
        for s, (q_, t) in RADS.items():
            if d.startswith("IntegratorXX::quadrature_traits<IntegratorXX::RadialTransformQuadrature<") and d.endswith("IntegratorXX::%s>, void>::generate(IntegratorXX::%s const&)" % (t, t)):
                c[d] = rad_contract(s)
        for s, t in ANGS.items():
            if d == "IntegratorXX::quadrature_traits<IntegratorXX::%s<double>, void>::generate(unsigned long)" % t:
                c[d] = ang_contract(s, always)
    for d in prod:
        c[d] = prod_contract
    return c


def same(ctx, eng, st, a, b, comps, label):
    """two containers with equal contents"""
    ctx.check(eng, st.fork(), eq(a.len, b.len), label + ": size")
    s = st.fork()
    i = var("idx", "I")
    for g in (ge(i, I(0)), lt(i, a.len), lt(i, b.len)):
        s.assume(g)
    for o in comps:
        s2 = s.fork()
        x, y = elem(ctx, eng, s2, a, i, o, label), elem(ctx, eng, s2, b, i, o, label)
        if x is not None and y is not None:
            ctx.check(eng, s2, eq(x, y), label + ": entry i")


def rad_terms(s, n, R_, al):
    return (n, R_, al) if s == "Ta" else (n, R_)


# ------------------------------------------------------------------ names
def upper(c):
    return ite(and_(ge(c, I(97)), le(c, I(122))), sub(c, I(32)), c)


def names(which):
    def go(ctx):
        eng = ctx.engine(TU)
        fn, table, pre = ("vf_rname", RNAMES, "vf_rk_") if which == "r" else ("vf_aname", ANAMES, "vf_ak_")
        ks = {s: kind(ctx, eng, s, pre) for s in table}
        nm = "radial_from_string" if which == "r" else "angular_from_string"
        eng.oblig(State(eng), TRUE if len(set(ks.values())) == 4 else FALSE, nm + ": the four kinds are distinct")
        st = State(eng)
        ln = uvar(st, "len", Engine.MAXLEN)
        st.mem["s"] = {0: Vec(ln, EFun("s"), 1, {0: "i8"})}
        ch = lambda k: app("s@0", (I(k),), "I")

        def matches(alias):
            return and_(eq(ln, I(len(alias))), *[eq(upper(ch(k)), I(ord(c))) for k, c in enumerate(alias)])
        for k in range(24):
            st.assume(and_(ge(ch(k), I(0)), le(ch(k), I(255))))
        outs = eng.call(st, fn, [Ptr("s", (0,))], nm)
        seen = set()
        for o in outs:
            if o.kind == "ret":
                if not isconst(o.val):
                    raise Unsupported("symbolic kind")
                k = [s for s in ks if ks[s] == cval(o.val)]
                seen.update(k)
                ctx.check(eng, o.st.fork(), or_(*[matches(a) for s in k for a in table[s]]), nm + ": a kind is returned only for one of its names, in any capitalisation")
            elif o.kind == "throw":
                for s in table:
                    for a in table[s]:
                        ctx.check(eng, o.st.fork(), not_(matches(a)), nm + ": '%s' in any capitalisation is recognised" % a)
            else:
                eng.fail(o.st, nm + ": no abort (%s)" % o.val)
        for s in table:
            eng.oblig(State(eng), TRUE if s in seen else FALSE, nm + ": kind %s is reachable" % s)
    return go


# ------------------------------------------------------------------ tasks
def c13(ctx):
    ctx.tu(TU)

    def task(name, f):
        ctx.spawn(name, lambda: f(ctx))

    task("radial_from_string (any string)", names("r"))
    task("angular_from_string (any string)", names("a"))

    def types(ctx):
        eng = ctx.engine(TU)
        for pre, tp, fam in (("vf_rk_", "vf_rt_", RADS), ("vf_ak_", "vf_at_", ANGS)):
            for s in fam:
                k = kind(ctx, eng, s, pre)
                o, = outcomes(ctx, eng, eng.call(State(eng), tp + s, [], "from_type"), "from_type")
                ctx.check(eng, o.st, eq(o.val, I(k)), "the kind of type %s is its enumerator" % s)
    task("radial_from_type / angular_from_type", types)

    def radial(s):
        def go(ctx):
            eng = ctx.engine(TU)
            eng.contracts.update(contracts(eng))
            k = kind(ctx, eng, s, "vf_rk_")
            st = State(eng)
            rq, n = uvar(st, "rq", U32), uvar(st, "n", Engine.MAXLEN)
            R_, al = var("R", "R"), var("alpha", "R")
            st.mem["o"], st.mem["d"] = {}, {}
            nm = "RadialFactory::generate with %s parameters" % RADS[s][0]
            got = 0
            for o in eng.call(st, "vf_rad_" + s, [rq, n, R_, al, Ptr("o", (0,))], nm):
                if o.kind == "throw":
                    ctx.check(eng, o.st.fork(), not_(eq(rq, I(k))), nm + ": the matching kind is accepted")
                elif o.kind == "ret":
                    got += 1
                    ctx.check(eng, o.st.fork(), eq(rq, I(k)), nm + ": only the matching kind is accepted")
                    for d in runfn(ctx, eng, o.st, "vf_radd_" + s, [n, R_, al, Ptr("d", (0,))], nm):
                        for off, what in ((0, "points"), (24, "weights")):
                            same(ctx, eng, d.st, d.st.read(Ptr("o", (off,)), "vec"), d.st.read(Ptr("d", (off,)), "vec"), (0,), "%s: %s equal those of the type built directly" % (nm, what))
                        ctx.check(eng, d.st.fork(), eq(d.st.read(Ptr("o", (48,)), "i64"), d.st.read(Ptr("d", (48,)), "i64")), nm + ": npts()")
                        ctx.check(eng, d.st.fork(), eq(d.st.read(Ptr("o", (48,)), "i64"), n), nm + ": npts() is the requested size")
                else:
                    eng.fail(o.st, nm + ": no abort (%s)" % o.val)
            eng.oblig(State(eng), TRUE if got else FALSE, nm + ": some kind is accepted")
        return go

    def mrt(ctx):
        for s in RADS:
            for m in (1, 2, 3):
                eng = ctx.engine(TU)
                k = kind(ctx, eng, s, "vf_rk_")
                ks = [kind(ctx, eng, x, "vf_rk_") for x in RADS]
                kta = kind(ctx, eng, "Ta", "vf_rk_")
                st = State(eng)
                rq, n = uvar(st, "rq", U32), uvar(st, "n", U64)
                R_, al = var("R", "R"), var("alpha", "R")
                nm = "make_radial_traits with %d arguments, against %s" % (m, RADS[s][1])
                for o in eng.call(st, "vf_mrt%d_%s" % (m, s), [rq, n, R_, al][:1 + m], nm):
                    known = or_(*[eq(rq, I(x)) for x in (ks if m < 3 else [kta])])
                    if o.kind == "throw":
                        ctx.check(eng, o.st, not_(known), nm + ": throws only for an unknown kind or arguments the kind does not take")
                    elif o.kind == "ret":
                        ctx.check(eng, o.st.fork(), known, nm + ": returns only for a kind that takes these arguments")
                        ctx.check(eng, o.st.fork(), ite(eq(rq, I(k)), eq(o.val, I(1)), eq(o.val, I(0))), nm + ": the object is of the requested scheme with the given parameters")
                    else:
                        eng.fail(o.st, nm + ": no abort (%s)" % o.val)
    for s in RADS:
        task("RadialFactory::generate, %s" % RADS[s][0], radial(s))
    task("make_radial_traits", mrt)

    def s2(ctx):
        eng = ctx.engine(TU)
        eng.contracts.update(contracts(eng))
        ks = {s: kind(ctx, eng, s, "vf_ak_") for s in ANGS}
        st = State(eng)
        aq, n = uvar(st, "aq", U32), uvar(st, "n", U64)
        st.mem["o"], st.mem["d"] = {}, {}
        nm = "S2Factory::generate"
        seen = set()
        for o in eng.call(st, "vf_s2", [aq, n, Ptr("o", (0,))], nm):
            if o.kind == "throw":
                for s in ANGS:
                    ctx.check(eng, o.st.fork(), not_(and_(eq(aq, I(ks[s])), sup(s, n))), nm + ": a supported %s size is accepted" % ANGS[s])
            elif o.kind == "ret":
                k = [s for s in ANGS if o.st.decide(eq(aq, I(ks[s])))]
                if len(k) != 1:
                    eng.fail(o.st, nm + ": only the four kinds are accepted")
                    continue
                seen.add(k[0])
                for d in runfn(ctx, eng, o.st, "vf_s2d_" + k[0], [n, Ptr("d", (0,))], nm):
                    for off, what, cs in ((0, "points", (0, 8, 16)), (24, "weights", (0,))):
                        same(ctx, eng, d.st, d.st.read(Ptr("o", (off,)), "vec"), d.st.read(Ptr("d", (off,)), "vec"), cs, "%s: %s equal those of the type built directly (%s)" % (nm, what, ANGS[k[0]]))
                    ctx.check(eng, d.st.fork(), eq(d.st.read(Ptr("o", (48,)), "i64"), n), nm + ": npts()")
            else:
                eng.fail(o.st, nm + ": no abort (%s)" % o.val)
        eng.oblig(State(eng), TRUE if seen == set(ANGS) else FALSE, nm + ": every kind is reachable")
    task("S2Factory::generate", s2)

    # ---------------------------------------------------------------- product rules used below
    eng0 = ctx.engine(TU)
    prods = prod_functions(eng0)

    def product(fn, dem):
        def go(ctx):
            verify_product(ctx, ctx.engine(TU), fn, "product rule [%s]" % short(dem))
        return go
    for fn, dem in prods:
        task("product " + short(dem), product(fn, dem))
    ctx.join()
    bad = {f["contract"] for f in ctx.functions if f["status"] != "verified"}
    failed = {o.label.split("]")[0] for o in ctx.joined if o.status != "proved"}
    ok = [d for _, d in prods if "product " + short(d) not in bad and "product rule [" + short(d) not in failed]

    def formula_product(ctx, eng, st, s, f, args, na, nm):
        """out is the product of radial rule s(args) and angular rule f(na), centred at the origin"""
        n = args[0]
        p, w = st.read(Ptr("o", (0,)), "vec"), st.read(Ptr("o", (24,)), "vec")
        m = mul(n, na)
        ctx.check(eng, st.fork(), and_(eq(p.len, m), eq(w.len, m), eq(st.read(Ptr("o", (72,)), "i64"), m)), nm + ": n*na points and weights")
        s1 = st.fork()
        i, j = var("i", "I"), var("j", "I")
        for v, hi in ((i, n), (j, na)):
            s1.assume(ge(v, I(0)))
            s1.assume(lt(v, hi))
        idx = add(i, mul(j, n))
        ctx.check(eng, s1, and_(ge(idx, I(0)), lt(idx, m)), nm + ": index in range")
        s1.assume(and_(ge(idx, I(0)), lt(idx, m)))
        ri = app("RADP_%s@0" % s, args + (i,), "R")
        for k in range(3):
            s2_ = s1.fork()
            a = elem(ctx, eng, s2_, p, idx, 8 * k, nm)
            if a is not None:
                ctx.check(eng, s2_, eq(a, mul(ri, app("ANGP_%s@%d" % (f, 8 * k), (na, j), "R"))), nm + ": point (i,j)")
        s2_ = s1.fork()
        a = elem(ctx, eng, s2_, w, idx, 0, nm)
        if a is not None:
            ctx.check(eng, s2_, eq(a, mul(mul(app("RADW_%s@0" % s, args + (i,), "R"), app("ANGW_%s@0" % f, (na, j), "R")), mul(ri, ri))), nm + ": weight (i,j)")
        for k in range(3):
            ctx.check(eng, st.fork(), eq(st.read(Ptr("o", (48 + 8 * k,)), "double"), R(0)), nm + ": centred at the origin")

    def unpruned(s, fn, what):
        def go(ctx):
            eng = ctx.engine(TU)
            eng.contracts.update(contracts(eng, ok))
            rk, aks = kind(ctx, eng, s, "vf_rk_"), {f: kind(ctx, eng, f, "vf_ak_") for f in ANGS}
            st = State(eng)
            rq, n, aq, na = uvar(st, "rq", U32), uvar(st, "n", Engine.MAXLEN), uvar(st, "aq", U32), uvar(st, "na", U64)
            R_, al = var("R", "R"), var("alpha", "R")
            st.mem["o"], st.mem["d"] = {}, {}
            nm = "%s with %s parameters" % (what, RADS[s][0])
            args = rad_terms(s, n, R_, al)
            seen = set()
            for o in eng.call(st, fn + s, [rq, n, R_, al, aq, na, Ptr("o", (0,))], nm):
                if o.kind == "throw":
                    for f in ANGS:
                        ctx.check(eng, o.st.fork(), not_(and_(eq(rq, I(rk)), eq(aq, I(aks[f])), sup(f, na))), nm + ": a supported %s size is accepted" % ANGS[f])
                elif o.kind == "ret":
                    k = [f for f in ANGS if o.st.decide(eq(aq, I(aks[f])))]
                    ctx.check(eng, o.st.fork(), eq(rq, I(rk)), nm + ": only the matching radial kind is accepted")
                    if len(k) != 1:
                        eng.fail(o.st, nm + ": only the four angular kinds are accepted")
                        continue
                    f = k[0]
                    seen.add(f)
                    ctx.check(eng, o.st.fork(), sup(f, na), nm + ": only supported sizes are accepted")
                    formula_product(ctx, eng, o.st, s, f, args, na, nm + ", " + ANGS[f])
                else:
                    eng.fail(o.st, nm + ": no abort (%s)" % o.val)
            eng.oblig(State(eng), TRUE if seen == set(ANGS) else FALSE, nm + ": every angular kind is reachable")
        return go

    def direct(s):
        def go(ctx):
            for f in ANGS:
                eng = ctx.engine(TU)
                eng.contracts.update(contracts(eng, ok))
                st = State(eng)
                n, na = uvar(st, "n", Engine.MAXLEN), uvar(st, "na", U64)
                st.assume(sup(f, na))
                R_, al = var("R", "R"), var("alpha", "R")
                st.mem["o"] = {}
                nm = "SphericalQuadrature<%s,%s> built directly" % (RADS[s][0], ANGS[f])
                for o in runfn(ctx, eng, st, "vf_unpd_%s_%s" % (s, f), [n, R_, al, na, Ptr("o", (0,))], nm):
                    formula_product(ctx, eng, o.st, s, f, rad_terms(s, n, R_, al), na, nm)
        return go

    for s in RADS:
        task("generate_unpruned_grid, %s" % RADS[s][0], unpruned(s, "vf_unp_", "generate_unpruned_grid"))
        task("generate_grid(unpruned), %s" % RADS[s][0], unpruned(s, "vf_unps_", "generate_grid(unpruned specification)"))
        task("direct construction, %s" % RADS[s][0], direct(s))

    # ---------------------------------------------------------------- pruned grids
    def pruned(s, fn, what, case):
        def go(ctx):
            eng = ctx.engine(TU)
            eng.contracts.update(contracts(eng, ok, case in ANGS))
            rk, aks = kind(ctx, eng, s, "vf_rk_"), {f: kind(ctx, eng, f, "vf_ak_") for f in ANGS}
            st = State(eng)
            rq = uvar(st, "rq", U32)
            n = uvar(st, "n", Engine.MAXLEN, 1)
            N = uvar(st, "R#", Engine.MAXLEN, 1)
            R_, al = var("R", "R"), var("alpha", "R")
            args = rad_terms(s, n, R_, al)
            size, lay = lib.layout("IntegratorXX::PruningRegion")
            # member offsets, from the public accessors
            offs = region_offsets(ctx, eng)
            B = lambda k: app("g@%d" % offs[0], (k,), "I")
            E = lambda k: app("g@%d" % offs[1], (k,), "I")
            Q = lambda k: app("g@%d" % offs[2], (k,), "I")
            Z = lambda k: app("g@%d" % offs[3], (k,), "I")
            end = lambda k: ite(lt(add(k, I(1)), N), B(add(k, I(1))), n)
            f = case if case in ANGS else None

            def fact(s_, idx, off, ty, v):
                inr = and_(ge(idx, I(0)), lt(idx, N))
                s_.assume(implies(inr, and_(ge(B(idx), I(0)), lt(B(idx), n), eq(E(idx), end(idx)), ge(Z(idx), I(0)), le(Z(idx), I(U64)), ge(Q(idx), I(0)), le(Q(idx), I(U32)))))
                s_.assume(implies(eq(idx, I(0)), eq(B(idx), I(0))))
                if f:
                    s_.assume(implies(inr, eq(Q(idx), I(aks[f]))))
                for k in (idx, sub(idx, I(1))):
                    k1 = add(k, I(1))
                    s_.assume(implies(and_(ge(k, I(0)), lt(k1, N)), lt(B(k), B(k1))))
            st.assume(eq(B(I(0)), I(0)))
            st.mem["g"] = {0: Vec(N, EFun("g", (), fact), size, lay)}
            st.mem["o"] = {}
            nm = "%s with %s parameters, %s" % (what, RADS[s][0], ANGS.get(f, case))
            if not f:
                return pruned_bad(ctx, eng, st, s, fn, nm, case, N, Q, Z, aks, rk, rq, n, R_, al, fact)
            P = lambda k: app("P", (k,), "I")
            cnt = lambda k: mul(sub(end(k), B(k)), Z(k))
            st.assume(le(P(N), I(eng.MAXLEN)))

            def cand(e, s0, K, v0, h):
                inr = and_(ge(K, I(0)), lt(K, N))
                return [(P(K), [eq(P(I(0)), I(0)), ge(P(K), I(0)), implies(inr, eq(P(add(K, I(1))), add(P(K), cnt(K)))),
                                implies(and_(ge(K, I(1)), le(K, N)), eq(P(K), add(P(sub(K, I(1))), cnt(sub(K, I(1))))))])]
            eng.cands.append(cand)
            got = 0
            for o in eng.call(st, fn + s, [rq, n, R_, al, Ptr("g", (0,)), Ptr("o", (0,))], nm):
                if o.kind == "throw":
                    ctx.check(eng, o.st.fork(), not_(eq(rq, I(rk))), nm + ": the matching radial kind with one supported angular kind is accepted")
                    continue
                if o.kind != "ret":
                    eng.fail(o.st, nm + ": no abort (%s)" % o.val)
                    continue
                got += 1
                ctx.check(eng, o.st.fork(), eq(rq, I(rk)), nm + ": only the matching radial kind is accepted")
                s1 = o.st
                p, w = s1.read(Ptr("o", (0,)), "vec"), s1.read(Ptr("o", (24,)), "vec")
                ctx.check(eng, s1.fork(), and_(eq(p.len, P(N)), eq(w.len, P(N)), eq(s1.read(Ptr("o", (72,)), "i64"), P(N))), nm + ": number of points and weights is the sum over the regions")
                k, i, j = var("k0", "I"), var("i", "I"), var("j", "I")
                s1 = s1.fork()
                fact(s1, k, 0, "", None)
                fact(s1, add(k, I(1)), 0, "", None)
                for v, m in ((k, N), (i, sub(end(k), B(k))), (j, Z(k))):
                    s1.assume(ge(v, I(0)))
                    s1.assume(lt(v, m))
                loc = add(i, mul(j, sub(end(k), B(k))))
                ctx.check(eng, s1, and_(ge(loc, I(0)), lt(loc, cnt(k))), nm + ": position inside region k is in range")
                s1.assume(and_(ge(loc, I(0)), lt(loc, cnt(k))))
                # lemma (induction over regions, lean/Lemmas.lean: block_inside)
                s1.assume(and_(ge(P(k), I(0)), le(add(P(k), cnt(k)), P(N))))
                idx = add(P(k), loc)
                ri = app("RADP_%s@0" % s, args + (add(B(k), i),), "R")
                for c in range(3):
                    s2_ = s1.fork()
                    a = elem(ctx, eng, s2_, p, idx, 8 * c, nm + ": point")
                    if a is not None:
                        ctx.check(eng, s2_, eq(a, mul(ri, app("ANGP_%s@%d" % (f, 8 * c), (Z(k), j), "R"))), nm + ": region k, point (i,j)")
                s2_ = s1.fork()
                a = elem(ctx, eng, s2_, w, idx, 0, nm + ": weight")
                if a is not None:
                    ctx.check(eng, s2_, eq(a, mul(mul(app("RADW_%s@0" % s, args + (add(B(k), i),), "R"), app("ANGW_%s@0" % f, (Z(k), j), "R")), mul(ri, ri))), nm + ": region k, weight (i,j)")
                for c in range(3):
                    ctx.check(eng, o.st.fork(), eq(o.st.read(Ptr("o", (48 + 8 * c,)), "double"), R(0)), nm + ": centred at the origin")
            eng.oblig(State(eng), TRUE if got else FALSE, nm + ": some radial kind is accepted")
        return go

    def pruned_bad(ctx, eng, st, s, fn, nm, case, N, Q, Z, aks, rk, rq, n, R_, al, fact):
        st.assume(eq(rq, I(rk)))
        if case == "mixed angular kinds":
            k = uvar(st, "kbad", Engine.MAXLEN)
            st.assume(lt(k, N))
            st.assume(not_(eq(Q(k), Q(I(0)))))
            eng.witness = [k]
            fact(st, k, 0, "", None)
            fact(st, I(0), 0, "", None)
        elif case == "an unsupported size":
            k = uvar(st, "kbad", Engine.MAXLEN)
            st.assume(lt(k, N))
            st.assume(not_(sup("ll", Z(k))))
            st.assume(eq(Q(I(0)), I(aks["ll"])))
            eng.witness = [k]
            fact(st, k, 0, "", None)
            fact(st, I(0), 0, "", None)
        elif case == "an unknown angular kind":
            for a in aks.values():
                st.assume(not_(eq(Q(I(0)), I(a))))
            fact(st, I(0), 0, "", None)
        for o in eng.call(st, fn + s, [rq, n, R_, al, Ptr("g", (0,)), Ptr("o", (0,))], nm):
            if o.kind == "throw":
                eng.oblig(o.st, TRUE, nm + ": throws")
            elif o.kind == "ret":
                eng.fail(o.st, nm + ": throws")
            else:
                eng.fail(o.st, nm + ": no abort (%s)" % o.val)

    for s in RADS:
        for f in ANGS:
            task("generate_pruned_grid, %s, %s" % (RADS[s][0], ANGS[f]), pruned(s, "vf_prn_", "generate_pruned_grid", f))
        task("generate_grid(pruned), %s" % RADS[s][0], pruned(s, "vf_prns_", "generate_grid(pruned specification)", list(ANGS)[list(RADS).index(s)]))
    for case in ("mixed angular kinds", "an unknown angular kind", "an unsupported size"):
        task("generate_pruned_grid, " + case, pruned("Bk", "vf_prn_", "generate_pruned_grid", case))

    def rejects(ctx):
        eng = ctx.engine(TU)
        eng.contracts.update(contracts(eng, ok))
        size, lay = lib.layout("IntegratorXX::PruningRegion")

        def never(fn, args, nm, st):
            for o in eng.call(st, fn, args, nm):
                if o.kind == "throw":
                    eng.oblig(o.st, TRUE, nm + ": throws")
                else:
                    eng.fail(o.st, nm + ": throws (%s)" % o.kind)
        R_, al = var("R", "R"), var("alpha", "R")
        for s in RADS:
            for fn, what in (("vf_prn_", "generate_pruned_grid"), ("vf_prns_", "generate_grid(pruned specification)")):
                st = State(eng)
                rq, n = uvar(st, "rq", U32), uvar(st, "n", Engine.MAXLEN)
                st.mem["g"] = {0: Vec(I(0), EUninit(), size, lay)}
                st.mem["o"] = {}
                never(fn + s, [rq, n, R_, al, Ptr("g", (0,)), Ptr("o", (0,))], "%s with no regions, %s" % (what, RADS[s][0]), st)
        st = State(eng)
        rq = uvar(st, "rq", U32)
        st.mem["g"] = {0: Vec(uvar(st, "ln", Engine.MAXLEN), EFun("g"), size, lay)}
        st.mem["o"] = {}
        never("vf_nullp", [rq, Ptr("g", (0,)), Ptr("o", (0,))], "generate_grid(pruned specification without radial parameters)", st)
        st = State(eng)
        st.mem["o"] = {}
        never("vf_nullu", [uvar(st, "rq", U32), uvar(st, "n", U64), R_, uvar(st, "aq", U32), uvar(st, "na", U64), Ptr("o", (0,))], "generate_grid(unpruned specification without radial parameters)", st)
        for k, sch in enumerate(("Unpruned", "Robust", "Treutler")):
            st = State(eng)
            st.mem["o"] = {}
            never("vf_nullc", [I(k), uvar(st, "rq", U32), uvar(st, "n", U64), R_, uvar(st, "aq", U32), uvar(st, "na", U64), Ptr("o", (0,))], "create_pruned_spec(%s) without radial parameters" % sch, st)
    task("rejected requests", rejects)
    ctx.join()
    ctx.assume("contracts of the radial generate (C05) and angular generate (C11) functions: as many points and weights as requested, determined by the parameters; a supported angular size is one for which generate returns")
    ctx.lean(["block_inside", "blocks_disjoint", "block_covers"])
    ctx.assume("toupper of the C locale")


def short(dem):
    m = re.search(r"spherical_combine_op<double>, (.*)>, void>::generate", dem)
    s = m.group(1) if m else dem
    for a in ("IntegratorXX::", "RadialTransformQuadrature", "<double, double>", "<double>", "RadialTraits"):
        s = s.replace(a, "")
    return s


def region_offsets(ctx, eng):
    """where idx_st, idx_en, angular_quad, angular_size of a region live"""
    st = State(eng)
    st.mem["pr"] = {}
    marks = [I(11), I(22), I(33), I(44)]
    o, = outcomes(ctx, eng, eng.call(st, "vf_rput", [Ptr("pr", (0,))] + marks, "put"), "put")
    return [next(k for k, v in o.st.mem["pr"].items() if v is m) for m in marks]


def verify_product(ctx, eng, fn, nm):
    st = State(eng)
    nr, na = var("nr", "I"), var("na", "I")
    sizes(st, nr)
    sizes(st, na)
    for root, o, n_, n, es, lay in (("r", 0, "rp", nr, 8, D1), ("r", 24, "rw", nr, 8, D1), ("a", 0, "ap", na, 24, D3), ("a", 24, "aw", na, 8, D1)):
        vec(st, root, o, n_, n, es, lay)
    st.mem["out"] = {}
    from .spec_sph import same_vec
    for o in runfn(ctx, eng, st, fn, [Ptr("out", (0,)), Ptr("r", (0,)), Ptr("a", (0,))], nm):
        p, w = o.st.read(Ptr("out", (24,)), "vec"), o.st.read(Ptr("out", (0,)), "vec")
        n = mul(nr, na)
        ctx.check(eng, o.st.fork(), eq(p.len, n), nm + ": nr*na points")
        ctx.check(eng, o.st.fork(), eq(w.len, n), nm + ": nr*na weights")
        s = o.st.fork()
        i, j = var("i", "I"), var("j", "I")
        for v, m in ((i, nr), (j, na)):
            s.assume(ge(v, I(0)))
            s.assume(lt(v, m))
        idx = add(i, mul(j, nr))
        ctx.check(eng, s, and_(ge(idx, I(0)), lt(idx, n)), nm + ": index in range")
        s.assume(and_(ge(idx, I(0)), lt(idx, n)))
        for k in range(3):
            x = elem(ctx, eng, s, p, idx, 8 * k, nm)
            if x is not None:
                ctx.check(eng, s, eq(x, mul(rd("rp", i), rd("ap", j, 8 * k))), nm + ": point (i,j)")
        x = elem(ctx, eng, s, w, idx, 0, nm)
        if x is not None:
            ctx.check(eng, s, eq(x, mul(rd("rw", i), rd("aw", j))), nm + ": weight (i,j)")
        for root, off, cn, n_, cs in (("r", 0, "rp", nr, (0,)), ("r", 24, "rw", nr, (0,)), ("a", 0, "ap", na, (0, 8, 16)), ("a", 24, "aw", na, (0,))):
            same_vec(ctx, eng, o.st, o.st.read(Ptr(root, (off,)), "vec"), cn, n_, cs, nm + ": %s unchanged" % cn)


def literals(d):
    """string literals of the factory sources: names worth trying"""
    import glob, os, re, json
    lits = set()
    for g in ("include/integratorxx/generators/**/*.hpp", "src/*.cxx"):
        for f in glob.glob(os.path.join(REPO, g), recursive=True):
            lits.update(x for x in re.findall(r'"((?:[^"\\\n]|\\.)*)"', open(f, errors="replace").read()) if x and len(x) < 40 and re.fullmatch(r"[ -~]+", x) and "\\" not in x)
    with open(os.path.join(d, "c13_strings.inc"), "w") as f:
        f.write("static const char* vf_literals[] = {%s};\n" % ", ".join([json.dumps(x) for x in sorted(lits)] + ['"Q"']))


NATIVE = {"C13": {"name": "c13", "flags": ["-O1"], "prep": literals}}
