"""Hash-consed terms: booleans, mathematical integers and mathematical reals.

Numeric terms are kept in a canonical polynomial form over atoms, so that ring
identities are decided by construction.  Atoms: variables, uninterpreted
applications, ite, integer quotient/remainder, reciprocals, int->real casts.
"""
from fractions import Fraction
import struct

_table = {}
_ids = [0]


class T:
    __slots__ = ("op", "args", "sort", "id", "_z3", "_atoms", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __reduce__(self):
        return (remk, (self.op, self.args, self.sort))


def remk(op, args, sort):
    """rebuild an interned term from another process (atom order may differ)"""
    if op == "poly":
        d = {}
        for m, c in args:
            m = tuple(sorted(m, key=lambda ae: ae[0].id))
            d[m] = d.get(m, 0) + c
        return mkpoly(d, sort)
    return mk(op, args, sort)


def mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort = op, args, sort
        t.id = _ids[0]
        _ids[0] += 1
        t._z3 = None
        t._atoms = None
        _table[key] = t
    return t


TRUE = mk("true", (), "B")
FALSE = mk("false", (), "B")


# ---------------------------------------------------------------- numerics
def const(v, sort):
    if not isinstance(v, (int, Fraction)):
        v = Fraction(v)
    if isinstance(v, Fraction) and v.denominator == 1:
        v = v.numerator
    return mk("const", (v,), sort)


def I(v):
    return const(int(v), "I")


def R(v):
    return const(Fraction(v), "R")


def var(name, sort):
    return mk("var", (name,), sort)


def isconst(t):
    return t.op == "const"


def cval(t):
    return t.args[0]


MAXMONO = 600


def pdict(t):
    """monomial -> coefficient.  A monomial is a sorted tuple of (atom, exp)."""
    if t.op == "poly":
        return dict(t.args)
    if t.op == "const":
        return {(): t.args[0]} if t.args[0] != 0 else {}
    return {((t, 1),): 1}


def mkpoly(d, sort):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return const(0, sort)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return const(c, sort)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = []
    for m, c in d.items():
        if isinstance(c, Fraction) and c.denominator == 1:
            c = c.numerator
        items.append((m, c))
    items.sort(key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    return mk("poly", tuple(items), sort)


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n:
            d[a] = n
        else:
            d.pop(a, None)
    return tuple(sorted(d.items(), key=lambda ae: ae[0].id))


def add(*ts):
    sort = ts[0].sort
    d = {}
    for t in ts:
        assert t.sort == sort, (t, sort)
        for m, c in pdict(t).items():
            d[m] = d.get(m, 0) + c
    return mkpoly(d, sort)


def scale(t, c):
    if c == 0:
        return const(0, t.sort)
    if t.op == "const":
        return const(Fraction(t.args[0]) * c, t.sort)
    return mkpoly({m: k * c for m, k in pdict(t).items()}, t.sort)


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, neg(b))


def _fixrecip(d):
    """recip(p)^-k -> p^k ; sqrt(p)^2 -> p"""
    bad = False
    for m in d:
        for a, e in m:
            if (a.op == "recip" and e < 0) or (a.op == "app" and a.args[0] == "sqrt" and (e >= 2 or e <= -2) and _sqrt_safe(a)):
                bad = True
                break
    if not bad:
        return d
    out = {}
    for m, c in d.items():
        rest, extra = [], None
        for a, e in m:
            if a.op == "recip" and e < 0:
                for _ in range(-e):
                    extra = a.args[0] if extra is None else mul(extra, a.args[0])
            elif a.op == "app" and a.args[0] == "sqrt" and abs(e) >= 2 and _sqrt_safe(a):
                q, r = divmod(abs(e), 2)
                f = a.args[1]
                if e < 0:
                    f = rdiv(const(1, "R"), f)
                for _ in range(q):
                    extra = f if extra is None else mul(extra, f)
                if r:
                    rest.append((a, 1 if e > 0 else -1))
            else:
                rest.append((a, e))
        if extra is None:
            out[m] = out.get(m, 0) + c
        else:
            base = mkpoly({tuple(rest): c}, "R")
            for mm, cc in pdict(mul(base, extra)).items():
                out[mm] = out.get(mm, 0) + cc
    return out


SQRT_NONNEG = set()     # sqrt atoms whose argument was proved non-negative


def _sqrt_safe(a):
    return a in SQRT_NONNEG


def mul(a, b):
    sort = a.sort
    assert b.sort == sort, (a, b)
    if a.op == "const":
        return scale(b, a.args[0])
    if b.op == "const":
        return scale(a, b.args[0])
    da, db = pdict(a), pdict(b)
    if len(da) * len(db) > MAXMONO:
        x, y = (a, b) if a.id < b.id else (b, a)
        return mk("mul", (x, y), sort)
    d = {}
    for m1, c1 in da.items():
        for m2, c2 in db.items():
            m = _mmul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    if sort == "R":
        d = _fixrecip({m: c for m, c in d.items() if c != 0})
    return mkpoly(d, sort)


def rdiv(a, b):
    """real division (definedness is a separate obligation)"""
    if b.op == "const":
        if b.args[0] == 0:
            return mk("divzero", (a,), "R")
        return scale(a, Fraction(1) / Fraction(b.args[0]))
    db = pdict(b)
    if len(db) == 1:
        (m, c), = db.items()
        im = tuple((x, -e) for x, e in m)
        d = {}
        for m1, c1 in pdict(a).items():
            mm = _mmul(m1, im)
            d[mm] = d.get(mm, 0) + Fraction(c1) / Fraction(c)
        return mkpoly(_fixrecip(d), "R")
    # exact quotient of proportional polynomials
    q = _ratio(a, b)
    if q is not None:
        return const(q, "R")
    # common monomial factor
    g = None
    for m in db:
        dm = dict(m)
        g = dm if g is None else {x: min(e, dm[x]) for x, e in g.items() if x in dm and (e > 0) == (dm[x] > 0)}
    g = {x: e for x, e in (g or {}).items() if e}
    if g:
        gm = tuple(sorted(g.items(), key=lambda ae: ae[0].id))
        igm = tuple((x, -e) for x, e in gm)
        b2 = mkpoly({_mmul(m, igm): c for m, c in db.items()}, "R")
        a2 = mkpoly(_fixrecip({_mmul(m, igm): c for m, c in pdict(a).items()}), "R")
        return rdiv(a2, b2)
    lead = b.args[0][1] if b.op == "poly" else 1
    bn = scale(b, Fraction(1) / Fraction(lead))
    r = mk("recip", (bn,), "R")
    return scale(mul(a, r), Fraction(1) / Fraction(lead))


def _ratio(a, b):
    da, db = pdict(a), pdict(b)
    if len(da) != len(db) or not da:
        return None
    q = None
    for m, c in da.items():
        if m not in db:
            return None
        r = Fraction(c) / Fraction(db[m])
        if q is None:
            q = r
        elif q != r:
            return None
    return q


def ipow(t, n):
    r = const(1, t.sort)
    for _ in range(n):
        r = mul(r, t)
    return r


def i2r(t):
    if t.op == "const":
        return const(t.args[0], "R")
    d = {}
    for m, c in pdict(t).items():
        mm = tuple(sorted(((mk("i2r", (a,), "R"), e) for a, e in m), key=lambda ae: ae[0].id))
        d[mm] = c
    return mkpoly(d, "R")


def idiv(a, b):
    """floor division, b > 0 assumed where used"""
    if b.op == "const" and b.args[0] > 0:
        n = b.args[0]
        if n == 1:
            return a
        if a.op == "const":
            return I(a.args[0] // n)
        d = pdict(a)
        q = {m: c // n for m, c in d.items()}
        r = {m: c - (c // n) * n for m, c in d.items()}
        qt, rt = mkpoly(q, "I"), mkpoly(r, "I")
        if rt.op == "const" and 0 <= rt.args[0] < n:
            return qt
        return add(qt, mk("idiv", (rt, b), "I"))
    return mk("idiv", (a, b), "I")


def imod(a, b):
    if b.op == "const" and b.args[0] > 0:
        n = b.args[0]
        if n == 1:
            return I(0)
        if a.op == "const":
            return I(a.args[0] % n)
        d = {m: c % n for m, c in pdict(a).items()}
        rt = mkpoly(d, "I")
        if rt.op == "const":
            return I(rt.args[0] % n)
        return sub(rt, mul(b, idiv(rt, b)))
    return sub(a, mul(b, idiv(a, b)))


def app(name, args, sort):
    return mk("app", (name,) + tuple(args), sort)


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a.sort == "B":
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == "not":
        return ite(c.args[0], b, a)
    return mk("ite", (c, a, b), a.sort)


# ---------------------------------------------------------------- booleans
def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "le0":
        t = a.args[0]
        if t.sort == "I":
            return le0(add(neg(t), I(1)))       # not(t<=0) -> -t+1<=0
        return lt0(neg(t))
    if a.op == "lt0":
        return le0(neg(a.args[0]))
    return mk("not", (a,), "B")


def and_(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == "and":
            for y in x.args:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    for x in out:
        if not_(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(sorted(out, key=lambda t: t.id)), "B")


def or_(*xs):
    return not_and([not_(x) for x in xs])


def not_and(xs):
    out = []
    for x in xs:
        if x is FALSE:
            return TRUE
        if x is TRUE:
            continue
        if x.op == "and":
            for y in x.args:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    for x in out:
        if not_(x) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return not_(out[0])
    return mk("not", (mk("and", tuple(sorted(out, key=lambda t: t.id)), "B"),), "B")


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    return and_(implies(a, b), implies(b, a))


def _norm_scale(d):
    """divide by the gcd of the coefficients (positive)"""
    from math import gcd
    L = 1
    for c in d.values():
        c = Fraction(c)
        L = L * c.denominator // gcd(L, c.denominator)
    g = 0
    for c in d.values():
        g = gcd(g, abs(int(Fraction(c) * L)))
    f = Fraction(L, g or 1)
    return {m: c * f for m, c in d.items()}


def le0(t):
    if t.op == "const":
        return TRUE if t.args[0] <= 0 else FALSE
    d = pdict(t)
    if t.sort == "I":
        from math import gcd
        g = 0
        for m, c in d.items():
            if m:
                g = gcd(g, abs(c))
        if g > 1:
            # sum g*x + c <= 0  <=> sum x <= floor(-c/g)
            c0 = d.get((), 0)
            d2 = {m: c // g for m, c in d.items() if m}
            d2[()] = -((-c0) // g)
            d = d2
    else:
        d = _norm_scale(d)
    return mk("le0", (mkpoly(d, t.sort),), "B")


def lt0(t):
    if t.op == "const":
        return TRUE if t.args[0] < 0 else FALSE
    if t.sort == "I":
        return le0(add(t, I(1)))
    return mk("lt0", (mkpoly(_norm_scale(pdict(t)), t.sort),), "B")


def eq0(t):
    if t.op == "const":
        return TRUE if t.args[0] == 0 else FALSE
    d = _norm_scale(pdict(t))
    if t.sort == "I":
        from math import gcd
        g = 0
        for m, c in d.items():
            if m:
                g = gcd(g, abs(int(c)))
        if g > 1 and d.get((), 0) % g:
            return FALSE
    p = mkpoly(d, t.sort)
    first = pdict(p)
    lead = min(first.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))[1]
    if lead < 0:
        p = neg(p)
    return mk("eq0", (p,), "B")


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == "B":
        return iff(a, b)
    if a.sort == "S":
        return mk("eqs", (a, b) if a.id < b.id else (b, a), "B")
    if a.op == "ite" or b.op == "ite":
        if b.op == "ite" and a.op != "ite":
            a, b = b, a
        # ite(c,x,y) == b   (only push when it folds, to keep terms small)
        c, x, y = a.args
        if (x.op == "const" or x is b) and (y.op == "const" or y is b) and (b.op == "const" or x is b or y is b):
            return or_(and_(c, eq(x, b)), and_(not_(c), eq(y, b)))
    return eq0(sub(a, b))


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return lt0(sub(a, b))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


# ---------------------------------------------------------------- traversal
def children(t):
    if t.op == "poly":
        for m, c in t.args:
            for a, e in m:
                yield a
    elif t.op in ("var", "const", "true", "false"):
        return
    elif t.op == "app":
        for a in t.args[1:]:
            yield a
    else:
        for a in t.args:
            if isinstance(a, T):
                yield a


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(children(x))
    return seen


def atoms(t):
    """all sub-terms that are vars/apps/... (cached frozenset)"""
    if t._atoms is None:
        s = set()
        for x in subterms(t):
            if x.op in ("var", "app"):
                s.add(x)
        t._atoms = frozenset(s)
    return t._atoms


REBUILD = {}


def rebuild(t, f):
    """rebuild t with f applied to children"""
    op = t.op
    if op in ("var", "const", "true", "false"):
        return t
    if op == "poly":
        acc = const(0, t.sort)
        parts = []
        for m, c in t.args:
            p = const(c, t.sort)
            for a, e in m:
                b = f(a)
                if e > 0:
                    p = mul(p, ipow(b, e))
                else:
                    p = rdiv(p, ipow(b, -e))
            parts.append(p)
        return add(*parts)
    if op == "app":
        args = [f(a) for a in t.args[1:]]
        h = REBUILD.get(t.args[0])
        if h:
            return h(*args)
        return app(t.args[0], args, t.sort)
    args = [f(a) if isinstance(a, T) else a for a in t.args]
    return {
        "mul": lambda: mul(*args), "recip": lambda: rdiv(const(1, "R"), args[0]),
        "i2r": lambda: i2r(args[0]), "idiv": lambda: idiv(*args),
        "ite": lambda: ite(*args), "not": lambda: not_(args[0]), "and": lambda: and_(*args),
        "le0": lambda: le0(args[0]), "lt0": lambda: lt0(args[0]), "eq0": lambda: eq0(args[0]),
        "eqs": lambda: eq(*args), "divzero": lambda: mk("divzero", (args[0],), "R"),
    }[op]()


def subst(t, m, memo=None):
    """simultaneous substitution of terms (atoms) by terms"""
    if not m:
        return t
    memo = {} if memo is None else memo

    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go)
            memo[x] = r
        return r
    return go(t)


def show(t, d=0):
    if d > 12:
        return "..."
    op = t.op
    if op == "const":
        return str(t.args[0])
    if op == "var":
        return t.args[0]
    if op in ("true", "false"):
        return op
    if op == "poly":
        out = []
        for m, c in t.args:
            fs = [show(a, d + 1) + ("^%d" % e if e != 1 else "") for a, e in m]
            if c != 1 or not fs:
                fs.insert(0, str(c))
            out.append("*".join(fs))
        return "(" + " + ".join(out) + ")"
    if op == "app":
        return t.args[0] + "(" + ", ".join(show(a, d + 1) for a in t.args[1:]) + ")"
    if op == "i2r":
        return show(t.args[0], d + 1)
    if op in ("le0", "lt0", "eq0"):
        return show(t.args[0], d + 1) + {"le0": "<=0", "lt0": "<0", "eq0": "==0"}[op]
    return op + "(" + ", ".join(show(a, d + 1) if isinstance(a, T) else str(a) for a in t.args) + ")"


def from_double_bits(h):
    v = struct.unpack(">d", bytes.fromhex(h))[0]
    return v


# ---------------------------------------------------------------- real equality
def clear_recips(t):
    """numerator of t after multiplying out all reciprocals / negative powers.
    t == 0  <=>  result == 0 wherever all denominators are nonzero."""
    for _ in range(60):
        d = pdict(t)
        # negative exponents
        negs = {}
        for m in d:
            for a, e in m:
                if e < 0:
                    negs[a] = min(negs.get(a, 0), e)
        if negs:
            f = tuple(sorted(((a, -e) for a, e in negs.items()), key=lambda ae: ae[0].id))
            nd = {}
            for m, c in d.items():
                mm = _mmul(m, f)
                nd[mm] = nd.get(mm, 0) + c
            t = mkpoly(_fixrecip(nd), t.sort)
            continue
        rec = None
        for m in d:
            for a, e in m:
                if a.op == "recip":
                    # innermost last: choose the one with the largest id
                    if rec is None or a.id > rec.id:
                        rec = a
        if rec is None:
            return t
        deg = max(dict(m).get(rec, 0) for m in d)
        base = rec.args[0]
        acc = const(0, t.sort)
        for m, c in d.items():
            e = dict(m).get(rec, 0)
            rest = tuple((a, x) for a, x in m if a is not rec)
            p = mkpoly({rest: c}, t.sort)
            acc = add(acc, mul(p, ipow(base, deg - e)))
        t = acc
    return t


def ring_equal(a, b):
    if a is b:
        return True
    t = clear_recips(sub(a, b))
    return t.op == "const" and t.args[0] == 0


def num_den(t):
    """t = num/den with reciprocals cleared (den a product of the denominators)"""
    den = const(1, t.sort)
    for _ in range(60):
        d = pdict(t)
        negs = {}
        for m in d:
            for a, e in m:
                if e < 0:
                    negs[a] = min(negs.get(a, 0), e)
        if negs:
            f = tuple(sorted(((a, -e) for a, e in negs.items()), key=lambda ae: ae[0].id))
            nd = {}
            for m, c in d.items():
                mm = _mmul(m, f)
                nd[mm] = nd.get(mm, 0) + c
            t = mkpoly(_fixrecip(nd), t.sort)
            den = mul(den, mkpoly({f: 1}, t.sort))
            continue
        rec = None
        for m in d:
            for a, e in m:
                if a.op == "recip" and (rec is None or a.id > rec.id):
                    rec = a
        if rec is None:
            return t, den
        deg = max(dict(m).get(rec, 0) for m in d)
        base = rec.args[0]
        acc = const(0, t.sort)
        for m, c in d.items():
            e = dict(m).get(rec, 0)
            rest = tuple((a, x) for a, x in m if a is not rec)
            acc = add(acc, mul(mkpoly({rest: c}, t.sort), ipow(base, deg - e)))
        t = acc
        den = mul(den, ipow(base, deg))
    return t, den


def r2i(t):
    """real polynomial in integer casts -> (integer polynomial, positive scale) or None"""
    if t.op == "const":
        f = Fraction(t.args[0])
        return const(f.numerator, "I"), f.denominator
    from math import gcd
    L = 1
    d = pdict(t)
    for m, c in d.items():
        for a, e in m:
            if a.op != "i2r" or e < 0:
                return None
        c = Fraction(c)
        L = L * c.denominator // gcd(L, c.denominator)
    acc = const(0, "I")
    for m, c in d.items():
        p = const(int(Fraction(c) * L), "I")
        for a, e in m:
            p = mul(p, ipow(a.args[0], e))
        acc = add(acc, p)
    return acc, L
