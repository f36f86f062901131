"""Contracts of the radial maps and radial quadratures (C04, C05)."""
import sys
from .term import *
from .sym import *
from .sym import PI
from .prove import *
from .spec_prim import q, check_rule, outcomes, sizes, cos_, sin_, gc2


def deriv(t, x):
    """symbolic derivative of a real term"""
    memo = {}

    def go(u):
        r = memo.get(u)
        if r is not None:
            return r
        if x not in atoms(u) and not any(y is x for y in subterms(u)):
            r = R(0)
        elif u is x:
            r = R(1)
        elif u.op == "poly":
            r = R(0)
            for m, c in pdict(u).items():
                for k, (a, e) in enumerate(m):
                    p = R(c)
                    for k2, (b, f) in enumerate(m):
                        f2 = f - 1 if k2 == k else f
                        if f2:
                            p = mul(p, powi(b, f2))
                    r = add(r, mul(scale(p, e), go(a)))
        elif u.op == "mul":
            a, b = u.args
            r = add(mul(go(a), b), mul(a, go(b)))
        elif u.op == "recip":
            a = u.args[0]
            r = neg(mul(go(a), rdiv(R(1), mul(a, a))))
        elif u.op == "app" and u.args[0] == "log":
            r = rdiv(go(u.args[1]), u.args[1])
        elif u.op == "app" and u.args[0] == "exp":
            r = mul(u, go(u.args[1]))
        elif u.op == "app" and u.args[0] == "sqrt":
            r = rdiv(go(u.args[1]), scale(u, 2))
        elif u.op == "app" and u.args[0] == "pow":
            b, e = u.args[1:]
            # d b^e = b^e (e b'/b + e' log b)
            r = mul(u, rdiv(mul(e, go(b)), b))
            if go(e) is not R(0):
                r = add(r, mul(u, mul(go(e), app("log", (b,), "R"))))
        else:
            raise Unsupported("derivative of %s" % show(u)[:200])
        memo[u] = r
        return r
    return go(t)


def powi(b, e):
    if e > 0:
        return ipow(b, e)
    return rdiv(R(1), ipow(b, -e))


def log_facts(st, ts):
    """facts about log and pow at the arguments occurring in ts"""
    seen = set()
    for t in ts:
        for u in subterms(t):
            if u.op == "app" and u not in seen:
                seen.add(u)
                if u.args[0] == "log":
                    a = u.args[1]
                    st.assume(implies(lt(R(1), a), lt(R(0), u)))
                    st.assume(implies(and_(lt(R(0), a), lt(a, R(1))), lt(u, R(0))))
                    if isconst(a) and cval(a) == 2:
                        st.assume(lt(R(0), u))
                elif u.args[0] == "pow":
                    st.assume(implies(lt(R(0), u.args[1]), lt(R(0), u)))
                elif u.args[0] == "exp":
                    st.assume(lt(R(0), u))


def fd_domain(ctx, eng, st, t, name):
    """every reciprocal, log, sqrt and non-integer power in t is applied inside its domain"""
    for u in subterms(t):
        if u.op == "recip":
            ctx.check(eng, st.fork(), not_(eq(u.args[0], R(0))), "%s: no division by zero" % name, "definedness")
        elif u.op == "poly":
            for m, c in pdict(u).items():
                for a, e in m:
                    if e < 0:
                        ctx.check(eng, st.fork(), not_(eq(a, R(0))), "%s: no division by zero" % name, "definedness")
        elif u.op == "app" and u.args[0] in ("log",):
            ctx.check(eng, st.fork(), lt(R(0), u.args[1]), "%s: logarithm of a positive number" % name, "definedness")
        elif u.op == "app" and u.args[0] == "pow":
            ctx.check(eng, st.fork(), lt(R(0), u.args[1]), "%s: power of a positive number" % name, "definedness")
        elif u.op == "app" and u.args[0] == "sqrt":
            ctx.check(eng, st.fork(), le(R(0), u.args[1]), "%s: root of a non-negative number" % name, "definedness")


LOG2 = app("log", (R(2),), "R")


def f_becke(R_, a, x):
    return rdiv(mul(R_, add(R(1), x)), sub(R(1), x))


def f_mhl(R_, a, x):
    y = rdiv(x, sub(R(1), x))
    return mul(R_, mul(y, y))


def f_mhlp(p):
    return lambda R_, a, x: mul(R_, ipow(rdiv(x, sub(R(1), x)), p))


def f_mk(R_, a, x):
    return neg(mul(R_, app("log", (sub(R(1), ipow(x, 3)),), "R")))


def f_ta(R_, a, x):
    return rdiv(mul(mul(R_, app("pow", (add(R(1), x), a), "R")), app("log", (rdiv(R(2), sub(R(1), x)),), "R")), LOG2)


SCHEMES = {"Becke": ("becke", f_becke, -1), "MurrayHandyLaming": ("mhl", f_mhl, 0), "MuraKnowles": ("mk", f_mk, 0), "TreutlerAhlrichs": ("ta", f_ta, -1)}


MAPS = dict(SCHEMES)
for p_ in (1, 3, 4, 5, 8):
    MAPS["MurrayHandyLaming<%d>" % p_] = ("mhl%d" % p_, f_mhlp(p_), 0)


def norm(eng, st, t):
    """identify applications whose arguments are ring-equal; canonical logarithms and powers"""
    return logpow_norm(eng, st, trig_norm(eng, st, t))


def _rational_log(c):
    """log of a positive rational as a combination of logarithms of primes"""
    acc = R(0)
    for v, s in ((Fraction(c).numerator, 1), (Fraction(c).denominator, -1)):
        k = 2
        while v > 1:
            if k * k > v or k > 1000:
                k = v
            e = 0
            while v % k == 0:
                v //= k
                e += 1
            if e:
                acc = add(acc, scale(app("log", (R(k),), "R"), s * e))
            k += 1
    return acc


def _irreducible(p):
    """poly -> (rational constant, [(irreducible poly, multiplicity)]) over Q (sympy's factorisation, multiplied out again to check)"""
    d = pdict(p)
    ats = sorted({a for m in d for a, e in m}, key=lambda a: a.id)
    if not ats or len(d) > 40 or any(e < 0 or e > 12 for m in d for a, e in m):
        return R(1), [(p, 1)]
    import sympy
    sy = {a: sympy.Symbol("a%d" % i) for i, a in enumerate(ats)}
    back = {v: k for k, v in sy.items()}
    ex = sympy.Add(*[sympy.Rational(Fraction(c).numerator, Fraction(c).denominator) * sympy.Mul(*[sy[a] ** e for a, e in m]) for m, c in d.items()])
    c0, fs = sympy.factor_list(ex)

    def term(po):
        P = sympy.Poly(po, *[sy[a] for a in ats])
        out = {}
        for mon, c in P.terms():
            out[tuple(sorted(((a, int(e)) for a, e in zip(ats, mon) if e), key=lambda ae: ae[0].id))] = Fraction(int(c.p), int(c.q))
        return mkpoly(out, "R")
    c0 = R(Fraction(int(c0.p), int(c0.q)))
    res = [(term(f), int(e)) for f, e in fs]
    acc = c0
    for f, e in res:
        acc = mul(acc, ipow(f, e))
    if not ring_equal(acc, p):
        return R(1), [(p, 1)]
    return c0, res


def pos_factors(st, t):
    """t = c * prod p^e with c > 0 and every p provably positive, or None"""
    parts, todo, c = [], [(t, 1)], Fraction(1)
    while todo:
        p, e = todo.pop()
        d = pdict(p)
        if p.op == "const":
            if cval(p) == 0:
                return None
            c *= Fraction(cval(p)) ** e
        elif len(d) == 1:
            (m, k), = d.items()
            c *= Fraction(k) ** e
            for a, x in m:
                if a.op == "recip":
                    todo.append((a.args[0], -x * e))
                elif a.op == "mul":
                    todo += [(a.args[0], x * e), (a.args[1], x * e)]
                else:
                    parts.append((a, x * e))
        elif any(a.op == "recip" or x < 0 for m in d for a, x in m):
            n, dn = num_den(p)
            todo += [(n, e), (dn, -e)]
        else:
            parts.append((p, e))
    out = {}
    for p, e in parts:
        k, fs = _irreducible(p) if p.op == "poly" else (R(1), [(p, 1)])
        c *= Fraction(cval(k)) ** e
        for f, mlt in fs:
            if solver.entails(st.facts, lt(R(0), f), 3000):
                pass
            elif solver.entails(st.facts, lt(f, R(0)), 3000):
                f = neg(f)
                c *= Fraction(-1) ** (mlt * e)
            else:
                return None
            lead = abs(Fraction(pdict(f)[max(pdict(f), key=lambda m: tuple((a.id, x) for a, x in m))]))
            f, c = scale(f, 1 / lead), c * lead ** (mlt * e)
            out[f] = out.get(f, 0) + mlt * e
    if c <= 0:
        return None
    return c, [(f, e) for f, e in out.items() if e]


def logpow_norm(eng, st, t):
    """logarithms of products, quotients and powers of positive factors as sums; powers with exponents split"""
    memo = {}

    def log_of(a):
        pf = pos_factors(st, a)
        if pf is None:
            return eng.canon_app("log", [a])
        acc = _rational_log(pf[0])
        for f, e in pf[1]:
            if f.op == "app" and f.args[0] == "pow":
                l = mul(f.args[2], log_of(f.args[1]))
            elif f.op == "app" and f.args[0] == "exp":
                l = f.args[1]
            elif f.op == "app" and f.args[0] == "sqrt":
                l = scale(log_of(f.args[1]), Fraction(1, 2))
            else:
                l = eng.canon_app("log", [f])
            acc = add(acc, scale(l, e))
        return acc

    def pow_of(b, e):
        """b^e for one positive factor"""
        if b.op == "app" and b.args[0] == "pow":
            return pow_all(b.args[1], mul(b.args[2], e))
        if b.op == "app" and b.args[0] == "exp":
            return exp_of(mul(b.args[1], e))
        if b.op == "app" and b.args[0] == "sqrt":
            return pow_all(b.args[1], scale(e, Fraction(1, 2)))
        acc = R(1)
        for m, c in pdict(e).items():
            c = Fraction(c)
            if m == ():
                k = c.numerator // c.denominator
                if abs(k) <= 16:
                    acc = mul(acc, powi(b, k) if k else R(1))
                    c -= k
                if c:
                    acc = mul(acc, eng.canon_app("pow", [b, R(c)]))
            else:
                k = c.numerator if abs(c.numerator) <= 16 else 1
                acc = mul(acc, powi(eng.canon_app("pow", [b, mkpoly({m: c / k}, "R")]), k))
        return acc

    def pow_all(b, e):
        pf = pos_factors(st, b)
        if pf is None:
            return eng.math(st, "pow", [b, e])
        acc = R(1) if pf[0] == 1 else pow_of(R(pf[0]), e)
        for f, k in pf[1]:
            acc = mul(acc, pow_of(f, scale(e, k)))
        return acc

    def exp_of(y):
        acc = R(1)
        for m, c in pdict(y).items():
            lg = [a for a, e in m if a.op == "app" and a.args[0] == "log" and e == 1]
            if len(lg) == 1:
                acc = mul(acc, pow_of(lg[0].args[1], mkpoly({tuple((a, e) for a, e in m if a is not lg[0]): c}, "R")))
            else:
                c = Fraction(c)
                k = c.numerator if abs(c.numerator) <= 16 else 1
                acc = mul(acc, powi(eng.canon_app("exp", [mkpoly({m: c / k}, "R")]), k))
        return acc

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "app" and x.args[0] == "log":
            r = log_of(go(x.args[1]))
        elif x.op == "app" and x.args[0] == "pow":
            r = pow_all(go(x.args[1]), go(x.args[2]))
        elif x.op == "app" and x.args[0] == "exp":
            r = exp_of(go(x.args[1]))
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    if not any(u.op == "app" and u.args[0] in ("log", "pow", "exp") for u in subterms(t)):
        return t
    return go(t)


def eval_fn(ctx, eng, st, fn, args, name):
    outs = outcomes(ctx, eng, eng.call(st, fn, args, name), name)
    if not outs:
        eng.fail(st, name + ": returns normally")
    return outs


def c04(ctx):
    for name, (tag, f, lo) in MAPS.items():
        def go():
            eng = ctx.engine("radial")
            st = State(eng)
            n, R_, x, a = var("n", "I"), var("R", "R"), var("x", "R"), var("alpha", "R")
            sizes(st, n)
            st.assume(lt(R(0), R_))
            st.assume(lt(R(lo), x))
            st.assume(lt(x, R(1)))
            pars = [n, R_] + ([a] if tag == "ta" else [])
            want = norm(eng, st, f(R_, a, x))
            for o in eval_fn(ctx, eng, st.fork(), "vf_%s_r" % tag, pars + [x], name + " map"):
                m, s = o.val, o.st
                ctx.check(eng, s.fork(), eq(norm(eng, s, m), want), "%s: the radial map is the published formula" % name)
                for o2 in eval_fn(ctx, eng, s.fork(), "vf_%s_j" % tag, pars + [x], name + " Jacobian"):
                    s2, j = o2.st, o2.val
                    d = norm(eng, s2, deriv(m, x))
                    jn = norm(eng, s2, j)
                    ctx.check(eng, s2.fork(), eq(jn, d), "%s: the Jacobian is the derivative of the map" % name)
                    dj = norm(eng, s2, deriv(want, x))
                    ctx.check(eng, s2.fork(), eq(jn, dj), "%s: the Jacobian is the derivative of the published map" % name)
                    s3 = s2.fork()
                    # positivity is shown of the published formulas, which the two equalities above identify with the code's values
                    pm, pj = f(R_, a, x), trig_norm(eng, s2, deriv(f(R_, a, x), x))
                    log_facts(s3, [m, j, pm, pj])
                    fd_domain(ctx, eng, s3.fork(), m, name + " map")
                    fd_domain(ctx, eng, s3.fork(), j, name + " Jacobian")
                    pos(ctx, eng, s3.fork(), pm, "%s: the map is positive on the interior" % name)
                    s4 = s3.fork()
                    if tag == "ta":
                        s4.assume(le(R(0), a))
                    pos(ctx, eng, s4, pj, "%s: the Jacobian is positive on the interior" % name)
                    # scaling in R
                    c = var("c", "R")
                    for what, t in (("map", m), ("Jacobian", j)):
                        ctx.check(eng, s3.fork(), eq(norm(eng, s3, subst(t, {R_: mul(c, R_)})), norm(eng, s3, mul(c, t))), "%s: %s proportional to the scale" % (name, what))
        ctx.run("%sRadialTraits::radial_transform / radial_jacobian" % name, go)

    def defaults():
        for tag, fn, args, f, lo, par in (("becke", "vf_becke_r0", [], f_becke, -1, None), ("mhl", "vf_mhl_r0", [], f_mhl, 0, None), ("mk", "vf_mk_r0", [], f_mk, 0, None),
                                          ("ta", "vf_ta_r0", [], f_ta, -1, q(3, 5)), ("ta", "vf_ta_r1", ["R"], f_ta, -1, q(3, 5))):
            eng = ctx.engine("radial")
            st = State(eng)
            n, x = var("n", "I"), var("x", "R")
            sizes(st, n)
            st.assume(lt(R(lo), x))
            st.assume(lt(x, R(1)))
            R_ = var("R", "R") if args else R(1)
            want = norm(eng, st, f(R_, par, x))
            for o in eval_fn(ctx, eng, st.fork(), fn, [n] + ([R_] if args else []) + [x], fn):
                ctx.check(eng, o.st, eq(norm(eng, o.st, o.val), want), "%s: documented default parameters" % tag)
    ctx.run("radial traits default arguments", defaults)
    ctx.assume("log t > 0 for t > 1, log t < 0 for 0 < t < 1, pow(b, e) > 0 for b > 0, and the textbook derivatives of log and pow (log' = 1/t, (b^e)' = e b^e b'/b)")


def pos(ctx, eng, st, t, label):
    """t > 0, using positivity of the factors when the product is beyond the solver"""
    goal = lt(R(0), t)
    if solver.entails(st.facts, goal, 6000):
        ctx.check(eng, st, goal, label)
        return
    n, d = num_den(t)
    s = st.fork()
    for f in factors_of(t):
        if solver.entails(s.facts, lt(R(0), f), 3000):
            s.assume(lt(R(0), f))
    ctx.check(eng, s, goal, label)


def factors_of(t):
    """candidate positive subterms: reciprocal arguments, applications and their products"""
    out = []
    for u in subterms(t):
        if u.op == "recip":
            out += [u.args[0], neg(u.args[0]), u, neg(u)]
        elif u.op == "app" and u.sort == "R":
            out += [u, neg(u)]
    base = list(out)
    for i, a in enumerate(base):
        for b in base[i + 1:]:
            out.append(mul(a, b))
    return out[:60]


NATIVE = {"C04": {"name": "c04"}, "C05": {"name": "c05"}}


def trap_w(n, i):
    return rdiv(ite(or_(eq(i, R(0)), eq(i, sub(n, R(1)))), q(1, 2), q(1)), sub(n, R(1)))


def base_contracts():
    """contracts proved under C01 and C03"""
    def trap3(eng, st, args, f, path):
        out, n, lo, up = args[:4]
        eng.oblig(st, ge(n, I(2)), "precondition of UniformTrapezoid: at least two points", "pre")
        d = sub(up, lo)

        def px(st_, a, idx, off, ty):
            return add(a[1], mul(i2r(idx), rdiv(sub(a[2], a[1]), sub(i2r(a[0]), R(1)))))

        def pw(st_, a, idx, off, ty):
            return mul(sub(a[2], a[1]), trap_w(i2r(a[0]), i2r(idx)))
        st.write(out.plus(24), Vec(n, ESpec("trap.points", px, (n, lo, up)), 8, {0: "double"}))
        st.write(out, Vec(n, ESpec("trap.weights", pw, (n, lo, up)), 8, {0: "double"}))
        return [Outcome(st, "ret", None)]

    def trap1(eng, st, args, f, path):
        return trap3(eng, st, list(args[:2]) + [R(0), R(1)], f, path)
    q_ = "IntegratorXX::quadrature_traits<IntegratorXX::%s<double, double>, void>::generate(%s)"
    return {q_ % ("GaussChebyshev2", "unsigned long"): contract_generate("GaussChebyshev2", lambda n, i: gc2(n, i)[0], lambda n, i: gc2(n, i)[1]),
            q_ % ("UniformTrapezoid", "unsigned long, double, double"): trap3, q_ % ("UniformTrapezoid", "unsigned long"): trap1}


def c05(ctx):
    ctx.norm_hook = logpow_norm

    def want_forms(tag, f, R_, a):
        def base(n, i):
            if tag in ("becke", "ta"):
                return gc2(n, i)
            return rdiv(add(i, R(1)), add(n, R(1))), rdiv(R(1), add(n, R(1)))

        def form(n, i):
            x, w = base(n, i)
            X = var("x!", "R")
            m = f(R_, a, X)
            return subst(m, {X: x}), mul(w, subst(deriv(m, X), {X: x}))
        return base, form

    for name, (tag, f, lo) in SCHEMES.items():
        for suf, what in (("q", "from its traits"), ("qa", "from arguments"), ("qc", "from a base-class reference")):
            def go():
                eng = ctx.engine("radial", base_contracts())
                st = State(eng)
                n, R_, a = var("n", "I"), var("R", "R"), var("alpha", "R")
                sizes(st, n, 1)
                st.assume(lt(R(0), R_))
                st.mem["out"] = {}
                pars = [n, R_] + ([a] if tag == "ta" else [])
                nm = "%s quadrature %s" % (name, what)
                base, form = want_forms(tag, f, R_, a)
                outs = eval_fn(ctx, eng, st, "vf_%s_%s" % (tag, suf), pars + [Ptr("out", (0,))], nm)
                for o in outs:
                    check_rule(ctx, eng, o.st, "out", n, form, nm)
                if suf != "q":
                    return
                # base node strictly inside the interval, so that nothing blows up
                s = st.fork()
                i = var("idx", "I")
                s.assume(ge(i, I(0)))
                s.assume(lt(i, n))
                x, w = base(i2r(n), i2r(i))
                x = norm(eng, s, x)
                for u in list(subterms(x)):
                    if u.op == "app" and u.args[0] in ("cos", "sin"):
                        trig_signs(eng, s, u.args[1])
                ctx.check(eng, s.fork(), and_(lt(R(lo), x), lt(x, R(1))), "%s: every mapped base node is strictly inside the base interval" % name)
                x1 = norm(eng, s, base(i2r(n), i2r(add(i, I(1))))[0])
                if tag in ("mhl", "mk"):
                    ctx.check(eng, s.fork(), lt(x, x1), "%s: base nodes ascend" % name)
            ctx.run("%s %s: quadrature_traits<RadialTransformQuadrature>::generate" % (name, what), go)

    def wrong():
        for fn, tag in (("vf_wrong_bt", "Becke from Treutler-Ahlrichs"), ("vf_wrong_tb", "Treutler-Ahlrichs from Becke"), ("vf_wrong_mk", "Murray-Handy-Laming from Mura-Knowles"), ("vf_wrong_km", "Mura-Knowles from Murray-Handy-Laming")):
            eng = ctx.engine("radial", base_contracts())
            st = State(eng)
            n, R_ = var("n", "I"), var("R", "R")
            sizes(st, n, 1)
            st.mem["out"] = {}
            outs = eng.call(st, fn, [n, R_, Ptr("out", (0,))], fn)
            for o in outs:
                if o.kind == "throw":
                    eng.oblig(o.st, TRUE, "%s parameters are rejected" % tag)
                else:
                    eng.fail(o.st, "%s parameters are rejected" % tag)
    ctx.run("radial quadrature from parameters of another scheme", wrong)
    ctx.assume("contracts of GaussChebyshev2::generate and UniformTrapezoid::generate (discharged under C01 and C03)")


def c16(ctx):
    inf = var("inf", "R")
    for case in ("finite", "upper infinite", "lower infinite", "both infinite"):
        def go():
            eng = ctx.engine("bt")
            st = State(eng)
            lo, up, x, w = var("lo", "R"), var("up", "R"), var("x", "R"), var("w", "R")
            big = R(Fraction(sys.float_info.max))
            st.assume(lt(big, inf))
            st.assume(lt(R(-1), x))
            st.assume(lt(x, R(1)))
            L = lo if case in ("finite", "upper infinite") else neg(inf)
            U = up if case in ("finite", "lower infinite") else inf
            for v in (L, U):
                if v in (lo, up):
                    st.assume(le(v, big))
                    st.assume(le(neg(big), v))
            st.assume(lt(L, U))
            st.mem["out"] = {}
            nm = "transform_minus_one_to_one, %s" % case
            outs = outcomes(ctx, eng, eng.call(st, "vf_bt", [L, U, x, w, Ptr("out", (0,))], nm), nm)
            if not outs:
                eng.fail(st, nm + ": returns normally")
            for o in outs:
                s = o.st
                p, v = s.read(Ptr("out", (0,)), "double"), s.read(Ptr("out", (8,)), "double")
                if not (isinstance(p, T) and isinstance(v, T)) or inf in atoms(p) or inf in atoms(v):
                    eng.fail(s, nm + ": the result is finite")
                    continue
                fd_domain(ctx, eng, s.fork(), p, nm)
                fd_domain(ctx, eng, s.fork(), v, nm)
                d = deriv(p, x)
                ctx.check(eng, s.fork(), eq(v, mul(w, d)), nm + ": the weight is multiplied by the derivative of the map")
                pos(ctx, eng, s.fork(), d, nm + ": the map is increasing")
                if L is lo:
                    pos(ctx, eng, s.fork(), sub(p, lo), nm + ": image above the lower bound")
                if U is up:
                    pos(ctx, eng, s.fork(), sub(up, p), nm + ": image below the upper bound")
                if case == "finite":
                    ctx.check(eng, s.fork(), eq(p, add(rdiv(mul(sub(up, lo), x), R(2)), rdiv(add(lo, up), R(2)))), nm + ": the affine map")
                else:
                    # onto: the map takes every value of the target interval
                    s2 = s.fork()
                    y = var("y", "R")
                    inv = {"upper infinite": lambda: rdiv(sub(sub(y, lo), R(1)), add(sub(y, lo), R(1))), "lower infinite": lambda: rdiv(sub(R(1), sub(up, y)), add(R(1), sub(up, y)))}.get(case)
                    if inv:
                        s2.assume(lt(lo, y) if case == "upper infinite" else lt(y, up))
                        xx = inv()
                        ctx.check(eng, s2.fork(), eq(subst(p, {x: xx}), y), nm + ": every value of the interval is attained")
        ctx.run("transform_minus_one_to_one [%s]" % case, go)


NATIVE["C16"] = {"name": "c16"}
