"""Deductive verification-condition generator for LLVM IR (clang -O0) modules.

Symbolic execution with path splitting, function contracts and inferred-and-
checked loop invariants.  See DESIGN.md for the semantics and the trusted base.
"""
import json, re, sys, time
from .term import *
from . import solver
from .solver import entails, quick, check_sat, elim, has_real

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    """construct outside the verifier's reach (never means 'violated')"""


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Ptr:
    __slots__ = ("root", "path")

    def __init__(self, root, path):
        self.root, self.path = root, path

    def __repr__(self):
        return "&%s%s" % (self.root, list(self.path))

    def same(self, o):
        return isinstance(o, Ptr) and self.root == o.root and self.path == o.path

    def __eq__(self, o):
        return self.same(o)

    def __hash__(self):
        return hash((self.root, self.path))

    def plus(self, off):
        return norm_ptr(self.root, self.path[:-1] + (self.path[-1] + off,))


def norm_ptr(root, path):
    if len(path) >= 2:
        idx, stride = path[-2]
        off = path[-1]
        if off < 0 or off >= stride:
            q, r = divmod(off, stride)
            return Ptr(root, path[:-2] + ((add(idx, I(q)), stride), r))
    return Ptr(root, path)


class Fn:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "fn:" + self.name

    def __eq__(self, o):
        return isinstance(o, Fn) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Null:
    def __repr__(self):
        return "null"


NULL = Null()


class Agg:
    """SSA aggregate value: list of (offset, value)"""

    def __init__(self, vals):
        self.vals = vals


class Vec:
    __slots__ = ("len", "el", "esize", "layout")

    def __init__(self, ln, el, esize, layout=None):
        self.len, self.el, self.esize, self.layout = ln, el, esize, layout

    def __repr__(self):
        return "Vec(len=%s, %s)" % (self.len, self.el)

    def subst(self, m, memo):
        return Vec(subst(self.len, m, memo), self.el.subst(m, memo), self.esize, self.layout)


def vsubst(v, m, memo):
    if not m:
        return v
    if isinstance(v, T):
        return subst(v, m, memo)
    if isinstance(v, Vec):
        return v.subst(m, memo)
    if isinstance(v, Ptr):
        return Ptr(v.root, tuple((subst(p[0], m, memo), p[1]) if isinstance(p, tuple) else p for p in v.path))
    return v


# ------------------------------------------------------------------ contents
class Elems:
    def subst(self, m, memo):
        raise NotImplementedError

    def get(self, st, idx, off, ty):
        raise NotImplementedError


def zero_of(ty):
    if ty in ("double", "float"):
        return R(0)
    if ty == "ptr":
        return NULL
    if ty == "vec":
        return Vec(I(0), EUninit(), 0)
    return I(0)


class EUninit(Elems):
    def subst(self, m, memo):
        return self

    def get(self, st, idx, off, ty):
        return UNDEF

    def __repr__(self):
        return "uninit"


class EZero(Elems):
    def subst(self, m, memo):
        return self

    def get(self, st, idx, off, ty):
        return zero_of(ty)

    def __repr__(self):
        return "zeros"


class EVal(Elems):
    """every element has the same cells"""

    def __init__(self, cells):
        self.cells = cells

    def subst(self, m, memo):
        return EVal({o: vsubst(v, m, memo) for o, v in self.cells.items()})

    def get(self, st, idx, off, ty):
        return self.cells.get(off, UNDEF)

    def __repr__(self):
        return "all(%s)" % self.cells


SORT = {"double": "R", "float": "R"}


class EFun(Elems):
    """uninterpreted contents name(args..., idx) with optional range facts"""

    def __init__(self, name, args=(), bound=None, nested=None):
        self.name, self.args, self.bound, self.nested = name, tuple(args), bound, nested

    def subst(self, m, memo):
        return EFun(self.name, [subst(a, m, memo) for a in self.args], self.bound, self.nested)

    def get(self, st, idx, off, ty):
        a = self.args + (idx,)
        if ty == "vec":
            es = (self.nested or {}).get(off, 8)
            ln = app("%s@%d.len" % (self.name, off), a, "I")
            st.assume(ge(ln, I(0)))
            st.assume(le(ln, I(st.eng.MAXLEN)))
            if self.bound:
                self.bound(st, idx, off, ty, ln)
            return Vec(ln, EFun("%s@%d" % (self.name, off), a, None), es)
        if ty == "ptr":
            raise Unsupported("pointer in uninterpreted contents")
        s = SORT.get(ty, "I")
        v = app("%s@%d" % (self.name, off), a, s)
        if s == "I":
            bits = int(ty[1:])
            st.assume(ge(v, I(0)))
            st.assume(lt(v, I(1 << bits)))
        if self.bound:
            self.bound(st, idx, off, ty, v)
        return v

    def __repr__(self):
        return "%s(%s,.)" % (self.name, ",".join(map(show, self.args)))


class ESpec(Elems):
    """contents given by a specification function f(st, args, idx, off, ty)"""

    def __init__(self, name, f, args=()):
        self.name, self.f, self.args = name, f, tuple(args)

    def subst(self, m, memo):
        return ESpec(self.name, self.f, [vsubst(a, m, memo) for a in self.args])

    def get(self, st, idx, off, ty):
        return self.f(st, self.args, idx, off, ty)

    def __repr__(self):
        return "spec:%s(%s)" % (self.name, ",".join(str(a) for a in self.args))


def cells_get(cells, off, ty):
    if off in cells:
        return cells[off]
    return None


class EStore(Elems):
    def __init__(self, prev, idx, cells):
        self.prev, self.idx, self.cells = prev, idx, cells

    def subst(self, m, memo):
        return EStore(self.prev.subst(m, memo), subst(self.idx, m, memo),
                      {o: vsubst(v, m, memo) for o, v in self.cells.items()})

    def get(self, st, idx, off, ty):
        if off not in self.cells:
            return self.prev.get(st, idx, off, ty)
        d = st.decide(eq(idx, self.idx))
        if d is True:
            return self.cells[off]
        if d is False:
            return self.prev.get(st, idx, off, ty)
        c = not_(eq(idx, self.idx))
        saved = st.facts
        st.facts = saved + [c]
        n0 = len(st.facts)
        p = self.prev.get(st, idx, off, ty)
        extra = st.facts[n0:]
        st.facts = saved
        for e in extra:
            st.assume(implies(c, e))
        return vite(eq(idx, self.idx), self.cells[off], p)

    def __repr__(self):
        return "%r[%s:=%s]" % (self.prev, self.idx, self.cells)


class ESlice(Elems):
    def __init__(self, base, start):
        self.base, self.start = base, start

    def subst(self, m, memo):
        return ESlice(self.base.subst(m, memo), subst(self.start, m, memo))

    def get(self, st, idx, off, ty):
        return self.base.get(st, add(idx, self.start), off, ty)

    def __repr__(self):
        return "slice(%r,%s)" % (self.base, self.start)


class ECat(Elems):
    """prev for idx < n, other[idx-n+ostart] for n <= idx < n+cnt, else prev"""

    def __init__(self, prev, n, other, ostart, cnt):
        self.prev, self.n, self.other, self.ostart, self.cnt = prev, n, other, ostart, cnt

    def subst(self, m, memo):
        return ECat(self.prev.subst(m, memo), subst(self.n, m, memo), self.other.subst(m, memo),
                    subst(self.ostart, m, memo), subst(self.cnt, m, memo))

    def get(self, st, idx, off, ty):
        c = and_(ge(idx, self.n), lt(idx, add(self.n, self.cnt)))
        d = st.decide(c)
        if d is False:
            return self.prev.get(st, idx, off, ty)
        if d is None:
            saved = st.facts
            st.facts = saved + [not_(c)]
            p = self.prev.get(st, idx, off, ty)
            extra = st.facts[len(saved) + 1:]
            saved = saved + [or_(c, e) for e in extra]
            st.facts = saved + [c]
            o = self.other.get(st, add(sub(idx, self.n), self.ostart), off, ty)
            extra = st.facts[len(saved) + 1:]
            st.facts = saved + [implies(c, e) for e in extra]
            return vite(c, o, p)
        return self.other.get(st, add(sub(idx, self.n), self.ostart), off, ty)

    def __repr__(self):
        return "cat(%r,%s,%r)" % (self.prev, self.n, self.other)


TENT = [0]        # > 0 while loop invariants are being discovered (results are only guesses)


def vite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, T) and isinstance(b, T) and a.sort == b.sort:
        return ite(c, a, b)
    if isinstance(a, Vec) and isinstance(b, Vec):
        return Vec(ite(c, a.len, b.len), EIte(c, a.el, b.el), a.esize or b.esize, a.layout or b.layout)
    if a is UNDEF and b is UNDEF:
        return UNDEF
    if isinstance(a, Ptr) and a.same(b):
        return a
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.root == b.root and len(a.path) == len(b.path) and all(
            (isinstance(p, tuple) and isinstance(q, tuple) and p[1] == q[1]) or p == q for p, q in zip(a.path, b.path)):
        return Ptr(a.root, tuple((ite(c, p[0], q[0]), p[1]) if isinstance(p, tuple) else p for p, q in zip(a.path, b.path)))
    if TENT[0] and (a is UNDEF or b is UNDEF):
        return b if a is UNDEF else a
    raise Unsupported("conditional value %r / %r" % (a, b))


class EIte(Elems):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def subst(self, m, memo):
        c = subst(self.c, m, memo)
        if c is TRUE:
            return self.a.subst(m, memo)
        if c is FALSE:
            return self.b.subst(m, memo)
        return EIte(c, self.a.subst(m, memo), self.b.subst(m, memo))

    def get(self, st, idx, off, ty):
        d = st.decide(self.c)
        if d is True:
            return self.a.get(st, idx, off, ty)
        if d is False:
            return self.b.get(st, idx, off, ty)
        return vite(self.c, self.a.get(st, idx, off, ty), self.b.get(st, idx, off, ty))


class Fam:
    """writes performed by iterations j in [0,K) of a loop, latest wins.

    paths: list of (guard, facts, writes); a write is
      ("st", idx, cells)                       one element
      ("fam", Fam, count)                      a nested family
      ("seg", start, other Elems, ostart, cnt) a block of elements
    all in terms of the counter variable j."""

    def __init__(self, j, paths):
        self.j, self.paths = j, paths

    def subst(self, m, memo):
        # j is bound; callers guarantee it does not occur in m
        return Fam(self.j, [(subst(g, m, memo), [subst(f, m, memo) for f in fs],
                             [wsubst(w, m, memo) for w in ws]) for g, fs, ws in self.paths])


def wsubst(w, m, memo):
    if w[0] == "st":
        return ("st", subst(w[1], m, memo), {o: vsubst(v, m, memo) for o, v in w[2].items()})
    if w[0] == "fam":
        return ("fam", w[1].subst(m, memo), subst(w[2], m, memo))
    return ("seg", subst(w[1], m, memo), w[2].subst(m, memo), subst(w[3], m, memo), subst(w[4], m, memo))


def lin(t, v):
    """t = a*v + c with a, c free of v; returns (a, c) or None"""
    d = pdict(t)
    a, c = {}, {}
    for m, k in d.items():
        e = dict(m).get(v, 0)
        rest = tuple((x, y) for x, y in m if x is not v)
        if any(v in atoms(x) for x, _ in rest):
            return None
        if e == 0:
            c[rest] = k
        elif e == 1:
            a[rest] = k
        else:
            return None
    return mkpoly(a, t.sort), mkpoly(c, t.sort)


class EFam(Elems):
    def __init__(self, prev, fam, K):
        self.prev, self.fam, self.K = prev, fam, K

    def subst(self, m, memo):
        return EFam(self.prev.subst(m, memo), self.fam.subst(m, memo), subst(self.K, m, memo))

    def __repr__(self):
        return "fam(%r, %s<%s, %s)" % (self.prev, self.fam.j, self.K, [w[:2] for p in self.fam.paths for w in p[2]])

    def get(self, st, idx, off, ty):
        try:
            hits = fam_hits(st, self.fam, self.K, idx, off, ty)
        except Unlocated:
            v = selector(st, self, idx, off, ty)
            if v is None:
                raise
            return v
        # hits: list of (cond, order_key term j*, thunk) latest-in-body last
        live = []
        for cond, j, thunk in hits:
            d = st.decide(cond)
            if d is False:
                continue
            if d is True:
                cond = TRUE
            live.append((cond, j, thunk))
        if not live:
            return self.prev.get(st, idx, off, ty)
        if len(live) == 1 and live[0][0] is TRUE:
            return live[0][2](st)
        base = None
        if not any(c is TRUE for c, _, _ in live):
            base = self.prev.get(st, idx, off, ty)
        # latest iteration wins; within an iteration the later write wins
        vals = []
        for cond, j, thunk in live:
            saved = st.facts
            st.facts = saved + ([cond] if cond is not TRUE else [])
            n0 = len(st.facts)
            v = thunk(st)
            extra = st.facts[n0:]
            st.facts = saved + [implies(cond, e) for e in extra]
            vals.append((cond, j, v))
        cur, prevs = base, []
        for cond, j, v in vals:
            if cur is None:
                cur = v
            else:
                ov = and_(cond, *[or_(not_(c2), ge(j, j2)) for c2, j2 in prevs])
                if st.decide(ov) is True:
                    ov = TRUE
                cur = vite(ov, v, cur)
            prevs.append((cond, j))
        return cur


def qr(st, t, B):
    """quotient/remainder of t by B>0 with simplification"""
    if B.op == "const":
        return idiv(t, B), imod(t, B)
    d = pdict(t)
    x, r = {}, {}
    bd = pdict(B)
    if len(bd) == 1 and list(bd.values())[0] == 1:
        (bm, _), = bd.items()
        for m, c in d.items():
            dm = dict(m)
            if all(dm.get(a, 0) >= e for a, e in bm):
                for a, e in bm:
                    dm[a] -= e
                mm = tuple(sorted(((a, e) for a, e in dm.items() if e), key=lambda ae: ae[0].id))
                x[mm] = x.get(mm, 0) + c
            else:
                r[m] = r.get(m, 0) + c
        xt, rt = mkpoly(x, "I"), mkpoly(r, "I")
        if st.decide(and_(ge(rt, I(0)), lt(rt, B))) is True:
            return xt, rt
        # off by one
        for dx in (1, -1):
            r2 = add(rt, scale(B, dx))
            if st.decide(and_(ge(r2, I(0)), lt(r2, B))) is True:
                return sub(xt, I(dx)), r2
    elif 1 < len(bd) <= 4:
        for bm, bc in bd.items():
            if abs(bc) != 1 or len(bm) != 1 or bm[0][1] != 1:
                continue
            a = bm[0][0]
            x = {}
            for m, c in d.items():
                dm = dict(m)
                if dm.get(a, 0) == 1:
                    del dm[a]
                    mm = tuple(sorted(dm.items(), key=lambda ae: ae[0].id))
                    x[mm] = x.get(mm, 0) + c * bc
            if not x:
                continue
            xt = mkpoly(x, "I")
            rt = sub(t, mul(xt, B))
            if st.decide(and_(ge(rt, I(0)), lt(rt, B))) is True:
                return xt, rt
    q = mk("idiv", (t, B), "I")
    st.assume(implies(and_(gt(B, I(0)), ge(t, I(0))),
                      and_(ge(sub(t, mul(q, B)), I(0)), lt(sub(t, mul(q, B)), B), ge(q, I(0)))))
    return q, sub(t, mul(q, B))


def idiv_norm(st, g):
    """replace quotients whose remainder is known to be in range"""
    for _ in range(8):
        ds = [x for x in subterms(g) if x.op == "idiv"]
        m = {}
        for x in ds:
            if x.args[1].op == "const":
                continue
            s = st.fork()
            q, r = qr(s, x.args[0], x.args[1])
            if q is not x and len(s.facts) == len(st.facts):
                m[x] = q
                break
        if not m:
            return g
        g = subst(g, m)
    return g


class Unlocated(Unsupported):
    pass


SELS = {}


def selector(st, el, idx, off, ty):
    """opaque value of element idx of `el`, resolved later when idx is known better"""
    if ty == "vec" or ty == "ptr":
        return None
    from .loops import ekey
    k = ekey(el)
    for c in st.ctrs:
        if ekey(el.subst({c: var("sel!probe", "I")}, {})) != k:
            return None
    key = (k, off, ty)
    nm = next((n for n, (kk, _) in SELS.items() if kk == key), None)
    if nm is None:
        nm = "sel!%d" % len(SELS)
        SELS[nm] = (key, (el, off, ty))
    return app(nm, (idx,), SORT.get(ty, "I"))


def resolve_sel(st, g):
    for _ in range(6):
        xs = [x for x in atoms(g) if x.op == "app" and x.args[0] in SELS]
        m = {}
        for x in xs:
            el, off, ty = SELS[x.args[0]][1]
            v = el.get(st, x.args[1], off, ty)
            if isinstance(v, T) and v is not x:
                m[x] = v
        if not m:
            return g
        g = subst(g, m)
    return g


def fam_hits(st, fam, K, t, off, ty, outer=None):
    """conditions under which element t was written, with value thunks"""
    out = []
    for guard, facts, writes in fam.paths:
        for w in writes:
            out.extend(write_hits(st, fam.j, K, guard, facts, w, t, off, ty))
    return out


def _usefacts(st, facts, m, v):
    """assume the per-iteration facts about skolem applications occurring in v"""
    if not facts:
        return
    memo = {}
    want = set(a for a in vatoms(v) if a.op == "app")
    fs = [subst(f, m, memo) for f in facts]
    changed = True
    used = set()
    while changed:
        changed = False
        for f in fs:
            if f in used:
                continue
            fa = set(a for a in atoms(f) if a.op == "app")
            if fa & want:
                used.add(f)
                want |= fa
                changed = True
    for f in fs:
        if f in used:
            st.eng.derived.add(f)
            if f.op == "and":
                st.eng.derived.update(f.args)
            st.assume(f)


def vatoms(v):
    if isinstance(v, T):
        return atoms(v)
    if isinstance(v, Vec):
        return atoms(v.len)
    return ()


def write_hits(st, j, K, guard, facts, w, t, off, ty):
    if w[0] == "st":
        _, idx, cells = w
        if off not in cells:
            return []
        l = lin(idx, j)
        if l is None:
            raise Unsupported("write index not affine in the loop counter: %s" % show(idx))
        a, c = l
        if a.op != "const":
            if j in atoms(a) or st.decide(gt(a, I(0))) is not True:
                raise Unsupported("write index %s" % show(idx))
        else:
            a = a.args[0]
        if isinstance(a, T):
            # a column: every a-th element
            jj, r = qr(st, sub(t, c), a)
            cond = and_(eq(r, I(0)), ge(sub(t, c), I(0)), ge(jj, I(0)), lt(jj, K))
        elif a == 0:
            # same element each iteration: last iteration counts
            jj = sub(K, I(1))
            cond = and_(eq(t, c), ge(K, I(1)))
            if guard is not TRUE:
                raise Unsupported("guarded loop-invariant write index")
        elif a in (1, -1):
            jj = scale(sub(t, c), a)
            cond = and_(ge(jj, I(0)), lt(jj, K))
        else:
            q, r = qr(st, scale(sub(t, c), 1 if a > 0 else -1), I(abs(a)))
            jj = q
            cond = and_(eq(r, I(0)), ge(jj, I(0)), lt(jj, K))
        m = {j: jj}
        g = subst(guard, m)
        cond = and_(cond, g)

        def thunk(s, v=cells[off], m=m):
            vv = vsubst(v, m, {})
            _usefacts(s, facts, m, vv)
            return vv
        return [(cond, jj, thunk)]
    if w[0] == "fam":
        _, inner, n = w
        out = []
        for g2, f2, ws in inner.paths:
            for w2 in ws:
                if w2[0] != "st":
                    raise Unsupported("nested block writes")
                _, idx, cells = w2
                if off not in cells:
                    continue
                i = inner.j
                li = lin(idx, i)
                if li is None:
                    raise Unsupported("nested index %s" % show(idx))
                ai, rest = li
                lo = lin(rest, j)
                if lo is None or j in atoms(ai):
                    raise Unsupported("nested index %s" % show(idx))
                aj, c = lo
                if j in atoms(n):
                    raise Unsupported("inner trip count depends on the outer counter")
                tt = sub(t, c)
                if aj.op == "const" and aj.args[0] == 0:
                    # outer-invariant: behaves like the last outer iteration
                    if ai.op == "const" and abs(ai.args[0]) == 1:
                        ii = scale(tt, ai.args[0])
                        jj = sub(K, I(1))
                        cond = and_(ge(ii, I(0)), lt(ii, n), ge(K, I(1)))
                    else:
                        raise Unsupported("nested index %s" % show(idx))
                elif ai.op == "const" and ai.args[0] == 1 and ring_equal(aj, n):
                    jj, ii = qr(st, tt, n)
                    cond = and_(gt(n, I(0)), ge(tt, I(0)), ge(jj, I(0)), lt(jj, K), ge(ii, I(0)), lt(ii, n))
                elif aj.op == "const" and aj.args[0] == 1 and st.decide(le(K, ai)) is True:
                    ii, jj = qr(st, tt, ai)
                    cond = and_(gt(ai, I(0)), ge(tt, I(0)), ge(jj, I(0)), lt(jj, K), ge(ii, I(0)), lt(ii, n))
                elif ai.op == "const" and ai.args[0] == 1 and st.decide(le(n, aj)) is True:
                    jj, ii = qr(st, tt, aj)
                    cond = and_(gt(aj, I(0)), ge(tt, I(0)), ge(jj, I(0)), lt(jj, K), ge(ii, I(0)), lt(ii, n))
                else:
                    raise Unsupported("nested index %s" % show(idx))
                m = {j: jj, i: ii}
                cond = and_(cond, subst(guard, m), subst(g2, m))

                def thunk(s, v=cells[off], m=m, f2=f2):
                    vv = vsubst(v, m, {})
                    _usefacts(s, list(facts) + list(f2), m, vv)
                    return vv
                out.append((cond, jj, thunk))
        return out
    if w[0] == "seg":
        _, start, other, ostart, cnt = w
        # locate x with t = start(x) + r by syntactic matching on start's head
        if start.op == "poly" or start.op == "const" or start.op == "var":
            raise Unsupported("segment start %s" % show(start))
        cands = []
        for m, c in pdict(t).items():
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                if a.op == "app" and start.op == "app" and a.args[0] == start.args[0] and len(a.args) == len(start.args):
                    # start = H(.., j+d) ; unify on the position containing j
                    mm = None
                    for x, y in zip(start.args[1:], a.args[1:]):
                        if x is y:
                            continue
                        l = lin(x, j) if isinstance(x, T) and x.sort == "I" else None
                        if l and l[0].op == "const" and l[0].args[0] == 1:
                            mm = sub(y, l[1])
                        else:
                            mm = None
                            break
                    if mm is not None:
                        cands.append((mm, sub(t, a)))
        for x, r in cands:
            mp = {j: x}
            n = subst(cnt, mp)
            if st.decide(and_(ge(x, I(0)), lt(x, K), ge(r, I(0)), lt(r, n))) is True:
                def thunk(s, mp=mp, r=r):
                    el = other.subst(mp, {})
                    v = el.get(s, add(r, subst(ostart, mp)), off, ty)
                    _usefacts(s, facts, mp, v)
                    return v
                return [(subst(guard, mp), x, thunk)]
        st0 = subst(start, {j: I(0)})
        if st.decide(lt(t, st0)) is True:
            return []
        # the block being appended after the family: index at or past start(K)
        stK = subst(start, {j: K})
        if st.decide(ge(t, stK)) is True:
            return []
        raise Unlocated("cannot locate element %s in appended blocks" % show(t))


# ------------------------------------------------------------------ state
class State:
    __slots__ = ("eng", "mem", "facts", "fresh", "ctrs", "pc", "quants", "lists", "lazy")

    def __init__(self, eng):
        self.eng = eng
        self.lists = ()       # local lists (with facts about their contents) of frames that have returned
        self.lazy = {}        # value -> facts about it, assumed when it is read
        self.quants = ()      # (j, n, g): for all 0 <= j < n, g(j)
        self.pc = ()
        self.mem = {}
        self.facts = []
        self.fresh = {}
        self.ctrs = ()

    def fork(self):
        s = State(self.eng)
        s.mem = dict(self.mem)
        s.facts = list(self.facts)
        s.fresh = dict(self.fresh)
        s.ctrs = self.ctrs
        s.pc = self.pc
        s.quants = self.quants
        s.lazy = self.lazy
        s.lists = self.lists
        return s

    def instantiate(self, i):
        """assume the quantified loop facts at index i"""
        for j, n, g in self.quants:
            # also where g reads an element at an affine function of j that equals i
            at = {i: 1}
            for x in subterms(g):
                for a in x.args if x.op == "app" else ():
                    if isinstance(a, T) and a.op == "poly" and a.sort == "I":
                        z = subst(a, {j: I(0)})
                        d = sub(a, z)
                        if d is j:
                            at[sub(i, z)] = 1
                        elif d is sub(I(0), j):
                            at[sub(z, i)] = 1
            for t in list(at)[:6]:
                self.assume(implies(and_(ge(t, I(0)), lt(t, n)), subst(g, {j: t})))

    def branch(self, c):
        """assume a branch condition"""
        if c is not TRUE:
            self.pc = self.pc + (c,)
            self.assume(c)

    def assume(self, f):
        if f is TRUE or f in self.facts:
            return
        if f.op == "and":
            for x in f.args:
                self.assume(x)
            return
        self.facts = self.facts + [f]

    def decide(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        key = (tuple(self.facts), c)
        r = self.eng.dcache.get(key)
        if r is None:
            if quick(self.facts, c, self.eng.dtimeout):
                r = (True,)
            elif quick(self.facts, not_(c), self.eng.dtimeout):
                r = (False,)
            else:
                r = (None,)
            self.eng.dcache[key] = r
        return r[0]

    def proves(self, c):
        return self.decide(c) is True

    # ---- memory
    def read(self, p, ty):
        if not isinstance(p, Ptr):
            raise Unsupported("load through %r" % (p,))
        cells = self.mem.get(p.root)
        if cells is None:
            return self.eng.read_global(self, p, ty)
        path = p.path
        v = cells.get(path[0], UNDEF)
        if len(path) == 1:
            return v
        k = 1
        while k < len(path):
            idx, stride = path[k]
            off = path[k + 1]
            if not isinstance(v, Vec):
                raise Unsupported("indexed access into non-vector %r at %r" % (v, p))
            last = k + 2 >= len(path)
            if not self.eng.mute:
                self.eng.oblig(self, and_(ge(idx, I(0)), lt(idx, v.len)), "element index in range (read)", "safety")
            v = v.el.get(self, idx, off, ty if last else "vec")
            k += 2
        return v

    def write(self, p, v):
        if not isinstance(p, Ptr):
            raise Unsupported("store through %r" % (p,))
        if p.root not in self.mem:
            raise Unsupported("store to global %s" % p.root)
        path = p.path
        cells = dict(self.mem[p.root])
        self.mem[p.root] = cells
        if len(path) == 1:
            cells[path[0]] = v
            return
        cells[path[0]] = self._wr(cells.get(path[0], UNDEF), path, 1, v)

    def _wr(self, vec, path, k, v):
        if not isinstance(vec, Vec):
            raise Unsupported("indexed store into non-vector %r" % (vec,))
        idx, stride = path[k]
        off = path[k + 1]
        if not self.eng.mute:
            self.eng.oblig(self, and_(ge(idx, I(0)), lt(idx, vec.len)), "element index in range (write)", "safety")
        if k + 2 >= len(path):
            nv = v
        else:
            inner = vec.el.get(self, idx, off, "vec")
            nv = self._wr(inner, path, k + 2, v)
        el = vec.el
        # merge consecutive stores to the same element
        if isinstance(el, EStore) and el.idx is idx:
            c = dict(el.cells)
            c[off] = nv
            el = EStore(el.prev, idx, c)
        else:
            el = EStore(el, idx, {off: nv})
        return Vec(vec.len, el, vec.esize, vec.layout)

    def readvec(self, p):
        v = self.read(p, "vec")
        if not isinstance(v, Vec):
            raise Unsupported("vector expected at %r, found %r" % (p, v))
        return v

    def new_root(self, name):
        n = self.fresh.get(name, 0)
        self.fresh[name] = n + 1
        r = name if n == 0 else "%s#%d" % (name, n)
        self.mem[r] = {}
        return r

    def fresh_name(self, base):
        n = self.fresh.get(base, 0)
        self.fresh[base] = n + 1
        return base if n == 0 else "%s#%d" % (base, n)

    def skolem(self, base, sort):
        """fresh value, a function of the enclosing loop counters"""
        nm = self.fresh_name(base)
        return app(nm, self.ctrs, sort) if self.ctrs else var(nm, sort)


class Outcome:
    __slots__ = ("st", "kind", "val")

    def __init__(self, st, kind, val=None):
        self.st, self.kind, self.val = st, kind, val


class Obligation:
    __slots__ = ("label", "kind", "status", "backend", "facts", "goal", "where", "time", "model")

    def __init__(self, **k):
        for x in self.__slots__:
            setattr(self, x, k.get(x))


class Frame:
    __slots__ = ("fn", "regs", "path", "roots", "args", "prev")

    def __init__(self, fn, path):
        self.fn, self.path = fn, path
        self.regs = {}
        self.roots = []
        self.prev = None

    def fork(self):
        f = Frame(self.fn, self.path)
        f.regs = dict(self.regs)
        f.roots = list(self.roots)
        f.prev = self.prev
        return f


class EHole(Elems):
    """unknown contents of an array modified by the loop being analysed"""

    def __repr__(self):
        return "hole %s%s" % (self.name, self.ctrs)

    def __init__(self, name, ctrs):
        self.name, self.ctrs = name, tuple(ctrs)

    def subst(self, m, memo):
        c = [subst(x, m, memo) for x in self.ctrs]
        if all(a is b for a, b in zip(c, self.ctrs)):
            return self
        return EHole(self.name, c)

    def get(self, st, idx, off, ty):
        a = self.ctrs + (idx,)
        if ty == "vec":
            return Vec(app("%s@%d.len" % (self.name, off), a, "I"), EHole("%s@%d" % (self.name, off), a), 8)
        if ty == "ptr":
            raise Unsupported("pointer in an array modified by a loop")
        return app("%s@%d" % (self.name, off), a, SORT.get(ty, "I"))


class LoopFail(Unsupported):
    pass


class NeedHavoc(Unsupported):
    """the enclosing loop has no closed form: abstract it by an inductive invariant"""


PI = var("pi", "R")


# ------------------------------------------------------------------ literals
import math
_named = []


def _named_table():
    if _named:
        return _named
    for e, base in ((1, math.pi), (-1, 1 / math.pi), (2, math.pi ** 2)):
        for p in range(1, 65):
            for q in range(1, 65):
                if math.gcd(p, q) == 1:
                    v = base * p / q
                    _named.append((v, e, Fraction(p, q)))
    return _named


_lits = {}
LITERALS_USED = {}


def literal(v):
    """double literal -> the mathematical constant it denotes"""
    if v in _lits:
        return _lits[v]
    r = None
    if v != v or v in (float("inf"), float("-inf")):
        r = var("inf", "R") if v > 0 else (neg(var("inf", "R")) if v < 0 else var("nan", "R"))
    else:
        fr = Fraction(v)
        if fr.denominator <= 4096:
            r = const(fr, "R")
        else:
            a = abs(v)
            ap = fr.limit_denominator(1000)
            if float(ap) == v:
                r = const(ap, "R")
            elif a == math.log(2):
                r = scale(app("log", (R(2),), "R"), 1 if v > 0 else -1)
            else:
                for val, e, q in _named_table():
                    if abs(val - a) <= 4e-16 * a:
                        # require the double nearest to the exact product
                        t = ipow(PI, e) if e > 0 else rdiv(R(1), PI)
                        r = scale(t, q if v > 0 else -q)
                        break
                if r is None:
                    r = const(fr, "R")
            LITERALS_USED[v] = show(r)
    _lits[v] = r
    return r


def bits_of(ty):
    if isinstance(ty, str) and ty[0] == "i" and ty[1:].isdigit():
        return int(ty[1:])
    return None


CALLDEPTH = 400


class Loop:
    def __init__(self, header, blocks):
        self.header, self.blocks = header, blocks


class Engine:
    MAXLEN = 1 << 31       # assumed bound on container sizes (see DESIGN.md)
    MAXUNROLL = 40
    MAXPATHS = 4000

    def __init__(self, mod, builtins=None, contracts=None, dtimeout=3000):
        self.mod = mod
        self.fns = mod["functions"]
        self.globals = mod["globals"]
        self.dcache = {}
        self.dtimeout = dtimeout
        self.mute = 0
        self.derived = set()     # facts re-derived from earlier iterations
        self.obligations = []
        self.obset = {}
        self.builtins = builtins or []
        self.bcache = {}
        self.contracts = contracts or {}
        self.used_contracts = {}
        self.used_builtins = {}
        self.executed = {}
        self.loops_info = []
        self.notes = []
        self.witness = []        # terms at which quantified loop facts are instantiated at once
        self.cands = []          # extra invariant candidates: f(eng, st, k) -> [T]
        self.depth = 0
        self.blockmap = {}
        self.where = ""
        self.deadline = None
        self.trigs = {"cos": [], "sin": []}
        self.check_fdiv = False
        self.nounroll = set()
        self.abort_is_violation = True
        self.ob_timeout = 10000
        self.stats = {"instrs": 0, "calls": 0, "paths": 0}

    # -------------------------------------------------------------- obligations
    def oblig(self, st, goal, label, kind="post", where=None):
        if self.mute:
            return True
        if goal is TRUE:
            key = (label, kind, self.where)
            o = self.obset.get(key)
            if o is None:
                o = Obligation(label=label, kind=kind, status="proved", backend="syntactic", facts=(), goal=TRUE, where=self.where, time=0)
                self.obset[key] = o
                self.obligations.append(o)
            return True
        key = (tuple(st.facts), goal, label)
        if key in self.obset:
            return self.obset[key].status == "proved"
        t0 = time.time()
        ring0 = solver.STAT["ring"]
        ok = entails(st.facts, goal, self.ob_timeout)
        if not ok and goal is not FALSE and has_real(goal):
            e = elim(st.facts, goal)
            ok = bool(e) and entails(e[0], e[1], self.ob_timeout)
        backend = "ring" if solver.STAT["ring"] > ring0 else "z3"
        status = "proved" if ok else "failed"
        o = Obligation(label=label, kind=kind, status=status, backend=backend, facts=tuple(st.facts), goal=goal,
                       where=where or self.where, time=time.time() - t0)
        self.obset[key] = o
        self.obligations.append(o)
        if not ok:
            if kind == "safety":
                st.assume(goal)
        return ok

    def fail(self, st, label, kind="post"):
        """an obligation that is false on a feasible path"""
        return self.oblig(st, FALSE, label, kind)

    # -------------------------------------------------------------- module access
    def blocks(self, fname):
        b = self.blockmap.get(fname)
        if b is None:
            f = self.fns[fname]
            blks = {x["id"]: x for x in f["blocks"]}
            loops = {}
            for x in f["blocks"]:
                for h in x.get("loops", []):
                    loops.setdefault(h, set()).add(x["id"])
            b = (f["blocks"][0]["id"], blks, {h: Loop(h, bs) for h, bs in loops.items()})
            self.blockmap[fname] = b
        return b

    def feasible(self, st):
        return not quick(st.facts, FALSE, 1500) if st.facts else True

    def typename(self, root):
        """class name of a typeinfo object"""
        g = self.globals.get(root)
        d = g["dem"] if g else str(root)
        return d[len("typeinfo for "):] if d.startswith("typeinfo for ") else d

    # -------------------------------------------------------------- constants
    def read_global(self, st, p, ty):
        g = self.globals.get(p.root)
        if g is None:
            raise Unsupported("read of unknown root %s" % p.root)
        if not g.get("const"):
            raise Unsupported("read of mutable global %s" % p.root)
        if len(p.path) > 1:
            idx, stride = p.path[1]
            off = p.path[2] if len(p.path) > 2 else 0
            return app("tbl:%s@%d" % (p.root, off), (add(idx, I(p.path[0] // stride)),), SORT.get(ty, "I"))
        if "init" not in g:
            raise Unsupported("external global %s" % p.root)
        v = self.const_at(g["init"], g["ty"], p.path[0], ty)
        if v is None:
            if ty in SORT:
                return app("tbl:%s" % p.root, (I(p.path[0]),), "R")
            raise Unsupported("constant %s at %d" % (p.root, p.path[0]))
        return v

    def const_at(self, c, cty, off, ty):
        k = c[0]
        if k == "z":
            return zero_of(ty)
        if k in ("i", "f", "n", "g"):
            return self.operand_const(c) if off == 0 else None
        if k == "u":
            return UNDEF
        if k == "str":
            if off < len(c[1]):
                n = (bits_of(ty) or 8) // 8
                v = 0
                for i in range(n):
                    v |= c[1][off + i] << (8 * i)
                return I(v)
            return I(0)
        if k == "agg":
            t = c[2]
            if t[0] == "array":
                i, r = divmod(off, t[3])
                if i < len(c[1]):
                    return self.const_at(c[1][i], t[2], r, ty)
                return None
            if t[0] == "struct":
                best = None
                for i, (o, et) in enumerate(t[2]):
                    if o <= off:
                        best = (i, o, et)
                if best:
                    return self.const_at(c[1][best[0]], best[2], off - best[1], ty)
        return None

    def operand_const(self, c):
        k = c[0]
        if k == "i":
            return I(int(c[1])) if c[2] > 1 else (TRUE if c[1] == "1" else FALSE)
        if k == "f":
            return literal(from_double_bits(c[1]))
        if k == "n":
            return NULL
        if k == "u":
            return UNDEF
        if k == "g":
            if c[1] in self.fns:
                return Fn(c[1])
            return Ptr(c[1], (c[2],))
        if k == "z":
            return Agg([])
        if k == "agg":
            t = c[2]
            out = []
            if t[0] == "struct":
                for (o, et), x in zip(t[2], c[1]):
                    out.append((o, self.operand_const(x)))
                return Agg(out)
        raise Unsupported("constant %s" % (c,))

    def val(self, fr, c):
        if c[0] == "r":
            v = fr.regs.get(c[1])
            if v is None:
                raise Unsupported("use of undefined register in %s" % fr.fn)
            return v
        return self.operand_const(c)

    # -------------------------------------------------------------- calls
    def call(self, st, fname, args, path, noex=False):
        """returns list of Outcomes (ret / throw / abort)"""
        f = self.fns.get(fname)
        if f is None:
            raise Unsupported("call to unknown %s" % fname)
        dem = f["dem"]
        self.stats["calls"] += 1
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the proof exhausted")
        c = self.contracts.get(dem)
        if c is not None:
            self.used_contracts[dem] = self.used_contracts.get(dem, 0) + 1
            return c(self, st, args, f, path)
        b = self.bcache.get(fname)
        if b is None:
            b = (None,)
            for rx, h in self.builtins:
                m = rx.match(dem) or rx.match(fname)
                if m:
                    b = (h, m, rx.pattern)
                    break
            self.bcache[fname] = b
        if b[0] is not None:
            r = b[0](self, st, args, f, b[1], path)
            if r is not NotImplemented:
                self.used_builtins[dem] = self.used_builtins.get(dem, 0) + 1
                return r
        if f.get("decl"):
            raise Unsupported("call to external function %s" % dem)
        self.executed[dem] = self.executed.get(dem, 0) + 1
        if self.depth > CALLDEPTH:
            raise Unsupported("call depth")
        self.depth += 1
        try:
            return self.run_function(st, fname, args, path)
        finally:
            self.depth -= 1

    def run_function(self, st, fname, args, path):
        f = self.fns[fname]
        entry, blks, loops = self.blocks(fname)
        fr = Frame(fname, path)
        if len(args) < len(f["args"]):
            raise Unsupported("arity of %s" % f["dem"])
        for a, v in zip(f["args"], args):
            fr.regs[a["id"]] = v
        outs, backs, exits = self.run_region(st, fr, entry, None, None, None)
        assert not backs and not exits
        for o in outs:
            for root in fr.roots:
                pass
        # free the frame's locals
        pref = path + "|"
        res = []
        for o in outs:
            for root in [r for r in o.st.mem if r.startswith("L:" + path + "/" + fname)]:
                if not o.st.ctrs:
                    for v in o.st.mem[root].values():
                        if isinstance(v, Vec) and getattr(v.el, "carries_facts", False):
                            o.st.lists = o.st.lists + (v,)
                del o.st.mem[root]
            res.append(o)
        return res

    # -------------------------------------------------------------- regions
    def run_region(self, st, fr, start, prev, header, loopblocks):
        """execute from block start.  Stops at: return/throw (outcomes), jump to
        `header` (back edges) or leaving loopblocks (exits)."""
        entry, blks, loops = self.blocks(fr.fn)
        outs, backs, exits = [], [], []
        work = [(start, prev, st, fr, True)]
        npaths = 0
        while work:
            bid, prev, s, f, first = work.pop()
            if not first:
                if header is not None and bid == header:
                    backs.append((prev, s, f))
                    continue
                if loopblocks is not None and bid not in loopblocks:
                    exits.append((bid, prev, s, f))
                    continue
            if bid in loops and not (first and bid == header):
                # entering a (nested) loop from outside
                o2, e2 = self.do_loop(s, f, loops[bid], prev)
                outs.extend(o2)
                for (b3, p3, s3, f3) in e2:
                    work.append((b3, p3, s3, f3, False))
                continue
            npaths += 1
            if npaths > self.MAXPATHS:
                raise Unsupported("too many paths in %s" % self.fns[fr.fn]["dem"])
            for item in self.run_block(s, f, blks[bid], prev):
                if isinstance(item, Outcome):
                    outs.append(item)
                else:
                    nb, s2, f2 = item
                    work.append((nb, bid, s2, f2, False))
        return outs, backs, exits

    def run_block(self, st, fr, blk, prev):
        """returns list of Outcome | (next block, state, frame)"""
        ins = blk["ins"]
        # phis first
        i = 0
        phis = []
        while i < len(ins) and ins[i]["op"] == "phi":
            for v, b in ins[i]["in"]:
                if b == prev:
                    phis.append((ins[i]["id"], self.val(fr, v)))
                    break
            else:
                raise Unsupported("phi without predecessor")
            i += 1
        for a, v in phis:
            fr.regs[a] = v
        return self.run_ins(st, fr, blk, i)

    def run_ins(self, st, fr, blk, i):
        ins = blk["ins"]
        n = len(ins)
        while i < n:
            x = ins[i]
            op = x["op"]
            self.stats["instrs"] += 1
            h = getattr(self, "i_" + op, None)
            if op == "call" or op == "invoke":
                outs = self.do_call(st, fr, x)
                res = []
                single = None
                for o in outs:
                    if o.kind == "ret":
                        f2 = fr.fork() if len(outs) > 1 else fr
                        if "id" in x:
                            f2.regs[x["id"]] = o.val
                        if op == "invoke":
                            res.append((x["normal"], o.st, f2))
                        else:
                            if len(outs) == 1:
                                single = (o.st, f2)
                            else:
                                res.extend(self.run_ins(o.st, f2, blk, i + 1))
                    elif o.kind == "throw":
                        if op == "invoke":
                            k = self.unwind(fr, x["unwind"])
                            if k == "cleanup":
                                res.append(o)
                            elif k == "terminate":
                                res.append(Outcome(o.st, "abort", "exception escapes a noexcept function (std::terminate)"))
                            else:
                                raise Unsupported("exception handler in %s" % self.fns[fr.fn]["dem"])
                        else:
                            res.append(o)
                    else:
                        res.append(o)
                if single is not None:
                    st, fr = single
                    i += 1
                    continue
                return res
            if op == "br":
                if not x["ops"]:
                    return [(x["succ"][0], st, fr)]
                c = self.tobool(self.val(fr, x["ops"][0]))
                d = st.decide(c)
                if d is True:
                    return [(x["succ"][0], st, fr)]
                if d is False:
                    return [(x["succ"][1], st, fr)]
                s2, f2 = st.fork(), fr.fork()
                st.branch(c)
                s2.branch(not_(c))
                res = []
                if self.feasible(st):
                    res.append((x["succ"][0], st, fr))
                if self.feasible(s2):
                    res.append((x["succ"][1], s2, f2))
                return res
            if op == "switch":
                v = self.val(fr, x["ops"][0])
                res = []
                if isconst(v):
                    for c, b in x["cases"]:
                        if int(c[1]) == cval(v):
                            return [(b, st, fr)]
                    return [(x["default"], st, fr)]
                rest = st
                neg = []
                for c, b in x["cases"]:
                    cv = I(int(c[1]))
                    e = eq(v, cv)
                    d = st.decide(e) if len(x["cases"]) < 20 else None
                    if d is False or e is FALSE:
                        continue
                    s2, f2 = st.fork(), fr.fork()
                    s2.branch(e)
                    neg.append(not_(e))
                    if self.feasible(s2):
                        # propagate the constant
                        res.append((b, s2, f2))
                st.branch(and_(*neg) if neg else TRUE)
                if self.feasible(st):
                    res.append((x["default"], st, fr))
                return res
            if op == "ret":
                v = self.val(fr, x["ops"][0]) if x["ops"] else None
                return [Outcome(st, "ret", v)]
            if op == "unreachable":
                return [Outcome(st, "abort", "unreachable code reached (undefined behaviour)")]
            if op == "resume":
                return [Outcome(st, "throw", "resumed")]
            if h is None:
                raise Unsupported("instruction %s" % op)
            r = h(st, fr, x)
            if "id" in x:
                fr.regs[x["id"]] = r
            i += 1
        raise Unsupported("block without terminator")

    def unwind(self, fr, bid):
        entry, blks, loops = self.blocks(fr.fn)
        seen = set()
        b = blks[bid]
        for x in b["ins"]:
            if x["op"] == "landingpad":
                if not x["clauses"]:
                    return "cleanup"
                # terminate pads
                for y in b["ins"]:
                    if y["op"] == "call" and y["callee"][0] == "g" and "__clang_call_terminate" in y["callee"][1]:
                        return "terminate"
                return "catch"
        return "catch"

    # -------------------------------------------------------------- call instruction
    def do_call(self, st, fr, x):
        cal = x["callee"]
        if cal[0] == "g":
            name = cal[1]
        else:
            v = self.val(fr, cal)
            if isinstance(v, Fn):
                name = v.name
            elif v is NULL:
                return [Outcome(st, "abort", "call through null pointer")]
            else:
                raise Unsupported("indirect call through %r" % (v,))
        if name.startswith("llvm."):
            return self.intrinsic(st, fr, x, name)
        args = [self.val(fr, o) for o in x["ops"]]
        cid = x.get("id")
        site = "%s>%s" % (fr.path, x.get("line", 0)) if False else fr.path + ">" + name[-24:] + str(id(x) % 99991)
        site = fr.path + ">" + str(self.siteid(x))
        bv = x.get("byval")
        if bv:
            for i, sz in bv:
                r = st.new_root("byval:" + site + "." + str(i))
                self.memcpy(st, Ptr(r, (0,)), args[i], sz)
                args[i] = Ptr(r, (0,))
        return self.call(st, name, args, site)

    _sites = {}

    def siteid(self, x):
        k = id(x)
        s = x.get("_site")
        if s is None:
            Engine._nsites = getattr(Engine, "_nsites", 0) + 1
            s = x["_site"] = Engine._nsites
        return s

    def intrinsic(self, st, fr, x, name):
        A = lambda i: self.val(fr, x["ops"][i])
        ret = lambda v=None: [Outcome(st, "ret", v)]
        if name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.stacksave", "llvm.stackrestore", "llvm.experimental.noalias")):
            if name.startswith("llvm.stacksave"):
                return ret(NULL)
            return ret()
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            n = A(2)
            if not isconst(n):
                raise Unsupported("memcpy of symbolic size")
            if cval(n):
                self.memcpy(st, A(0), A(1), cval(n))
            return ret()
        if name.startswith("llvm.memset"):
            n, v = A(2), A(1)
            if not (isconst(n) and isconst(v) and cval(v) == 0):
                raise Unsupported("memset")
            p = A(0)
            if len(p.path) != 1:
                raise Unsupported("memset into vector")
            cells = dict(st.mem[p.root])
            st.mem[p.root] = cells
            for o in [o for o in cells if isinstance(o, int) and p.path[0] <= o < p.path[0] + cval(n)]:
                del cells[o]
            rg = (p.path[0], p.path[0] + cval(n))
            if rg not in cells.get("zero", ()):
                cells["zero"] = tuple(cells.get("zero", ())) + (rg,)
            return ret()
        if name.startswith("llvm.fmuladd") or name.startswith("llvm.fma."):
            return ret(add(mul(A(0), A(1)), A(2)))
        if name.startswith("llvm.fabs"):
            return ret(self.fabs(st, A(0)))
        if name.startswith(("llvm.sqrt", "llvm.cos", "llvm.sin", "llvm.log.", "llvm.exp.", "llvm.pow.", "llvm.floor", "llvm.ceil")):
            fn = name.split(".")[1]
            return ret(self.math(st, fn, [A(i) for i in range(len(x["ops"]))]))
        if name.startswith("llvm.is.fpclass") and isconst(A(1)):
            # a real is a finite number; the symbol inf is the only infinity (no NaN)
            v, mask, inf = A(0), int(cval(A(1))), var("inf", "R")
            fin = mask & 0x1F8
            if not isinstance(v, T):
                raise Unsupported("undefined operand")
            pinf, ninf = ge(v, inf), le(v, neg(inf))
            zero, posv, negv = eq(v, R(0)), and_(lt(R(0), v), lt(v, inf)), and_(lt(v, R(0)), lt(neg(inf), v))
            if fin and (mask & 0x60) not in (0, 0x60) or (mask & 0x198 & 0x18 and (mask & 0x18) != 0x18) or (mask & 0x180 and (mask & 0x180) != 0x180):
                raise Unsupported("floating-point class test %#x" % mask)
            return ret(or_(*([pinf] if mask & 0x200 else []), *([ninf] if mask & 4 else []), *([zero] if mask & 0x60 else []),
                           *([posv] if mask & 0x180 else []), *([negv] if mask & 0x18 else [])))
        if name.startswith("llvm.powi"):
            b = A(1)
            if isconst(b):
                return ret(self.math(st, "pow", [A(0), const(self.signed_const(cval(b), 32), "R")]))
        if name.startswith("llvm.umul.with.overflow"):
            r = mul(A(0), A(1))
            w = st.decide(lt(r, I(1 << 64)))
            if w is True:
                return ret(Agg([(0, r), (8, FALSE)]))
        if name.startswith("llvm.trap"):
            return [Outcome(st, "abort", "trap")]
        if name.startswith(("llvm.smax", "llvm.umax", "llvm.umin", "llvm.smin")):
            a, b = A(0), A(1)
            if name[5] == "s":
                a2, b2 = self.signed(st, a, 64), self.signed(st, b, 64)
            else:
                a2, b2 = a, b
            c = ge(a2, b2)
            return ret(vite(c, a, b) if "max" in name else vite(c, b, a))
        if name.startswith("llvm.expect"):
            return ret(A(0))
        if name.startswith("llvm.is.constant"):
            return ret(FALSE)
        if name.startswith("llvm.eh.typeid"):
            return ret(I(1))
        if name.startswith("llvm.abs"):
            a = self.signed(st, A(0), bits_of(x["ty"]))
            return ret(vite(ge(a, I(0)), a, neg(a)))
        raise Unsupported("intrinsic %s" % name)

    # -------------------------------------------------------------- memory blocks
    def getcell(self, st, root, off, ty):
        cells = st.mem.get(root)
        v = cells.get(off, UNDEF)
        if v is UNDEF:
            for a, b in cells.get("zero", ()):
                if a <= off < b:
                    return zero_of(ty)
        return v

    def memcpy(self, st, dst, src, n):
        """copy the cells of n bytes (n constant)"""
        items = self.cells_of(st, src, n)
        for o, v in items:
            st.write(dst.plus(o) if o else dst, v)

    def cells_of(self, st, src, n):
        if not isinstance(src, Ptr):
            raise Unsupported("memcpy from %r" % (src,))
        if src.root in st.mem:
            if len(src.path) == 1:
                cells = st.mem[src.root]
                b = src.path[0]
                out = [(o - b, v) for o, v in cells.items() if isinstance(o, int) and b <= o < b + n]
                for a, e in cells.get("zero", ()):
                    o = max(a, b)
                    while o < min(e, b + n):
                        if o not in cells and o % 8 == 0:
                            out.append((o - b, I(0)))
                        o += 8
                return out
            # element of a vector: need the layout
            base = Ptr(src.root, src.path[:-2])
            v = st.readvec(base)
            if not v.layout:
                raise Unsupported("copy of element with unknown layout")
            off0 = src.path[-1]
            idx = src.path[-2][0]
            out = []
            for o, ty in v.layout.items():
                if off0 <= o < off0 + n:
                    out.append((o - off0, st.read(Ptr(src.root, src.path[:-1] + (o,)), ty)))
            return out
        g = self.globals.get(src.root)
        if g is None:
            raise Unsupported("memcpy from %r" % (src,))
        out = []
        if "init" in g and len(src.path) == 1:
            for o, ty in self.window(g["ty"], 0, src.path[0], src.path[0] + n):
                if src.path[0] <= o < src.path[0] + n:
                    v = self.const_at(g["init"], g["ty"], o, ty)
                    if v is None:
                        v = self.read_global(st, Ptr(src.root, (o,)), ty)
                    out.append((o - src.path[0], v))
            return out
        if "init" in g and g.get("const") and len(src.path) in (2, 3):
            # an element of a constant table
            stride = src.path[1][1]
            off = src.path[2] if len(src.path) > 2 else 0
            for o, ty in self.window(g["ty"], 0, 0, stride):
                if off <= o < off + n:
                    out.append((o - off, self.read_global(st, Ptr(src.root, (src.path[0], src.path[1], o)), ty)))
            if out:
                return out
        raise Unsupported("memcpy from %r" % (src,))

    def window(self, ty, off, lo, hi):
        """scalar cells of the type at off that begin in [lo, hi)"""
        if isinstance(ty, str):
            return [(off, ty)] if lo <= off < hi else []
        if ty[0] == "array":
            k = max(0, (lo - off) // ty[3])
            out = []
            while k < ty[1] and off + k * ty[3] < hi:
                out += self.window(ty[2], off + k * ty[3], lo, hi)
                k += 1
            return out
        return [c for o, t in ty[2] for c in self.window(t, off + o, lo, hi)]

    def flat(self, ty, off):
        if isinstance(ty, str):
            return [(off, ty)]
        if ty[0] == "array":
            out = []
            if ty[1] > 4096:
                raise Unsupported("large table")
            for i in range(ty[1]):
                out.extend(self.flat(ty[2], off + i * ty[3]))
            return out
        if ty[0] == "struct":
            out = []
            for o, t in ty[2]:
                out.extend(self.flat(t, off + o))
            return out
        return []

    # -------------------------------------------------------------- instructions
    def i_alloca(self, st, fr, x):
        root = "L:%s/%s.%d" % (fr.path, fr.fn, x["id"])
        st.mem[root] = {}
        return Ptr(root, (0,))

    def i_load(self, st, fr, x):
        p = self.val(fr, x["ops"][0])
        ty = x["ty"]
        if p is NULL:
            self.fail(st, "null pointer dereference", "safety")
            raise Unsupported("load through null")
        if isinstance(ty, list):
            vals = []
            for o, t in self.flat(ty, 0):
                vals.append((o, self.load1(st, p.plus(o) if o else p, t)))
            return Agg(vals)
        return self.load1(st, p, ty)

    def load1(self, st, p, ty):
        if isinstance(p, Ptr) and len(p.path) == 1 and p.root in st.mem:
            v = self.getcell(st, p.root, p.path[0], ty)
        else:
            v = st.read(p, ty)
        while isinstance(v, T) and v.op == "ite" and v.sort == "I":
            # a wrapped difference whose case the path has decided since it was stored
            d = st.decide(v.args[0])
            if d is None:
                break
            v = v.args[1] if d else v.args[2]
        if st.lazy and isinstance(v, T) and v in st.lazy:
            for g in st.lazy[v]:
                st.assume(g)
        if v is UNDEF and TENT[0] and ty in ("double", "i64", "i32", "i8"):
            # invariant discovery: the real value is established in the verification pass
            v = st.skolem("tent", "R" if ty == "double" else "I")
            if ty != "double":
                st.assume(ge(v, I(0)))
                st.assume(lt(v, I(1 << int(ty[1:]))))
            return v
        if v is UNDEF:
            # bool padding bytes etc. never matter; reading an undefined scalar does
            raise Unsupported("read of uninitialised memory at %r (%s)" % (p, ty))
        if isinstance(v, Vec):
            raise Unsupported("raw load of a vector header")
        if isinstance(v, T) and ty in ("double",) and v.sort != "R":
            if v.op == "const" and v.args[0] == 0:
                return R(0)
            raise Unsupported("type punning")
        if isinstance(v, T) and v.sort == "B" and ty != "i1":
            return ite(v, I(1), I(0))
        if v is NULL and ty != "ptr":
            return I(0)
        if ty == "ptr" and isinstance(v, T):
            if v.op == "const" and v.args[0] == 0:
                return NULL
            raise Unsupported("type punning to pointer")
        return v

    def i_store(self, st, fr, x):
        v = self.val(fr, x["ops"][0])
        p = self.val(fr, x["ops"][1])
        if isinstance(v, Agg):
            for o, y in v.vals:
                st.write(p.plus(o) if o else p, y)
            return
        st.write(p, v)

    def i_getelementptr(self, st, fr, x):
        if x.get("bad"):
            raise Unsupported("gep")
        p = self.val(fr, x["ops"][0])
        if p is NULL or isinstance(p, Fn):
            if not x["var"] and x["const"] == 0:
                return p
            raise Unsupported("gep on null")
        if not isinstance(p, Ptr):
            raise Unsupported("gep on %r" % (p,))
        if x["const"]:
            p = p.plus(x["const"])
        for op, sc in x["var"]:
            iv = self.val(fr, op)
            iv = self.signed(st, iv, 64)
            p = self.index(st, p, iv, sc)
        return p

    def index(self, st, p, iv, sc):
        if isconst(iv):
            return p.plus(cval(iv) * sc)
        if len(p.path) >= 2:
            idx, stride = p.path[-2]
            if stride == sc:
                return Ptr(p.root, p.path[:-2] + ((add(idx, iv), stride), p.path[-1]))
            if sc % stride == 0 and p.path[-1] == 0:
                return Ptr(p.root, p.path[:-2] + ((add(idx, scale(iv, sc // stride)), stride), p.path[-1]))
            if sc < stride:
                # array inside the element: resolve the index to a constant if possible
                for k in range(0, stride // sc):
                    if st.decide(eq(iv, I(k))) is True:
                        return p.plus(k * sc)
        elif p.root in self.globals:
            return Ptr(p.root, (p.path[0] - p.path[0] % sc,) + ((iv, sc), p.path[0] % sc))
        else:
            for k in range(0, 64):
                if st.decide(eq(iv, I(k))) is True:
                    return p.plus(k * sc)
        raise Unsupported("symbolic index into %r" % (p,))

    # integers ----------------------------------------------------------------
    def signed_const(self, v, n):
        return v - (1 << n) if v >= (1 << (n - 1)) else v

    def signed(self, st, v, n):
        if isconst(v):
            return I(self.signed_const(cval(v), n))
        h = I(1 << (n - 1))
        if st.decide(lt(v, h)) is True:
            return v
        if st.decide(ge(v, h)) is True:
            return sub(v, I(1 << n))
        return ite(lt(v, h), v, sub(v, I(1 << n)))

    def wrap(self, st, r, n):
        M = 1 << n
        if isconst(r):
            return I(cval(r) % M)
        lo_ok = st.decide(ge(r, I(0)))
        hi_ok = st.decide(lt(r, I(M)))
        if lo_ok is True and hi_ok is True:
            return r
        if hi_ok is not True and st.decide(and_(ge(r, I(M)), lt(r, I(2 * M)))) is True:
            return sub(r, I(M))
        if lo_ok is not True and st.decide(and_(lt(r, I(0)), ge(r, I(-M)))) is True:
            return add(r, I(M))
        # ternary form keeps the terms linear
        if st.decide(and_(ge(r, I(-M)), lt(r, I(2 * M)))) is True:
            return ite(lt(r, I(0)), add(r, I(M)), ite(ge(r, I(M)), sub(r, I(M)), r))
        return imod(r, I(M))

    def binint(self, st, fr, x, f):
        a, b = self.val(fr, x["ops"][0]), self.val(fr, x["ops"][1])
        n = bits_of(x["ty"])
        if a is UNDEF or b is UNDEF:
            raise Unsupported("undef operand")
        return self.wrap(st, f(a, b), n)

    def toint(self, v):
        if isinstance(v, T) and v.sort == "B":
            return ite(v, I(1), I(0))
        if v is NULL:
            return I(0)
        return v

    def tobool(self, v):
        if isinstance(v, T) and v.sort == "B":
            return v
        if isinstance(v, T) and v.sort == "I":
            return not_(eq(v, I(0)))
        raise Unsupported("boolean expected, got %r" % (v,))

    def ops2(self, fr, x):
        return self.val(fr, x["ops"][0]), self.val(fr, x["ops"][1])

    def i_add(self, st, fr, x):
        return self.binint(st, fr, x, add)

    def i_sub(self, st, fr, x):
        a, b = self.ops2(fr, x)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            d = self.ptrdiff(st, a, b)
            n = 64
            return self.wrap(st, d, n)
        if a is NULL and b is NULL:
            return I(0)
        return self.binint(st, fr, x, sub)

    def ptrdiff(self, st, a, b):
        if a.root != b.root or len(a.path) != len(b.path) or a.path[:-2] != b.path[:-2]:
            raise Unsupported("difference of unrelated pointers %r %r" % (a, b))
        if len(a.path) == 1:
            return I(a.path[0] - b.path[0])
        (i, s), (j, s2) = a.path[-2], b.path[-2]
        if s != s2:
            raise Unsupported("difference of pointers with different strides")
        return add(scale(sub(i, j), s), I(a.path[-1] - b.path[-1]))

    def i_mul(self, st, fr, x):
        return self.binint(st, fr, x, mul)

    def divcheck(self, st, b):
        self.oblig(st, not_(eq(b, I(0))), "integer division by zero", "safety")

    def i_udiv(self, st, fr, x):
        a, b = self.ops2(fr, x)
        self.divcheck(st, b)
        return self.udiv(st, a, b)

    def udiv(self, st, a, b):
        if isconst(b):
            return idiv(a, b)
        return qr(st, a, b)[0]

    def i_urem(self, st, fr, x):
        a, b = self.ops2(fr, x)
        self.divcheck(st, b)
        if isconst(b):
            return imod(a, b)
        return qr(st, a, b)[1]

    def i_sdiv(self, st, fr, x):
        a, b = self.ops2(fr, x)
        self.divcheck(st, b)
        n = bits_of(x["ty"])
        a, b = self.signed(st, a, n), self.signed(st, b, n)
        return self.wrap(st, self.tdiv(st, a, b), n)

    def tdiv(self, st, a, b):
        if isconst(b) and cval(b) > 0:
            q = idiv(a, b)
            if all(c % cval(b) == 0 for c in pdict(a).values()) or st.decide(ge(a, I(0))) is True:
                return q
            return ite(ge(a, I(0)), q, neg(idiv(neg(a), b)))
        if st.decide(and_(ge(a, I(0)), gt(b, I(0)))) is True:
            return qr(st, a, b)[0]
        raise Unsupported("signed division")

    def i_srem(self, st, fr, x):
        a, b = self.ops2(fr, x)
        self.divcheck(st, b)
        n = bits_of(x["ty"])
        a, b = self.signed(st, a, n), self.signed(st, b, n)
        return self.wrap(st, sub(a, mul(b, self.tdiv(st, a, b))), n)

    def i_shl(self, st, fr, x):
        a, b = self.ops2(fr, x)
        if not isconst(b):
            raise Unsupported("shift by variable")
        return self.wrap(st, scale(a, 1 << cval(b)), bits_of(x["ty"]))

    def i_lshr(self, st, fr, x):
        a, b = self.ops2(fr, x)
        if not isconst(b):
            raise Unsupported("shift by variable")
        return idiv(a, I(1 << cval(b)))

    def i_ashr(self, st, fr, x):
        a, b = self.ops2(fr, x)
        if not isconst(b):
            raise Unsupported("shift by variable")
        n = bits_of(x["ty"])
        return self.wrap(st, idiv(self.signed(st, a, n), I(1 << cval(b))), n)

    def i_and(self, st, fr, x):
        a, b = self.ops2(fr, x)
        if x["ty"] == "i1":
            return and_(self.tobool(a), self.tobool(b))
        if isconst(a):
            a, b = b, a
        if isconst(b):
            m = cval(b)
            if m & (m + 1) == 0:
                return imod(a, I(m + 1))
            if isconst(a):
                return I(cval(a) & m)
        raise Unsupported("bitwise and")

    def i_or(self, st, fr, x):
        a, b = self.ops2(fr, x)
        if x["ty"] == "i1":
            return or_(self.tobool(a), self.tobool(b))
        if isconst(a) and isconst(b):
            return I(cval(a) | cval(b))
        raise Unsupported("bitwise or")

    def i_xor(self, st, fr, x):
        a, b = self.ops2(fr, x)
        if x["ty"] == "i1":
            a, b = self.tobool(a), self.tobool(b)
            return or_(and_(a, not_(b)), and_(not_(a), b))
        n = bits_of(x["ty"])
        if isconst(b) and cval(b) == (1 << n) - 1:
            return sub(I((1 << n) - 1), a)
        raise Unsupported("bitwise xor")

    def i_zext(self, st, fr, x):
        return self.toint(self.val(fr, x["ops"][0]))

    def i_sext(self, st, fr, x):
        v = self.val(fr, x["ops"][0])
        n = bits_of(x["fty"])
        if isinstance(v, T) and v.sort == "B":
            return ite(v, I((1 << bits_of(x["ty"])) - 1), I(0))
        return self.wrap(st, self.signed(st, v, n), bits_of(x["ty"]))

    def i_trunc(self, st, fr, x):
        v = self.val(fr, x["ops"][0])
        n = bits_of(x["ty"])
        if n == 1:
            if v.op == "ite" and isconst(v.args[1]) and isconst(v.args[2]):
                c, p, q = v.args
                return or_(and_(c, eq(imod(p, I(2)), I(1))), and_(not_(c), eq(imod(q, I(2)), I(1))))
            return eq(imod(v, I(2)), I(1))
        if v.op == "const":
            return I(cval(v) % (1 << n))
        if st.decide(lt(v, I(1 << n))) is True:
            return v
        if v.op == "ite":
            pass
        return self.wrap(st, v, n) if st.decide(lt(v, I(2 << n))) is True else imod(v, I(1 << n))

    def i_ptrtoint(self, st, fr, x):
        return self.val(fr, x["ops"][0])

    def i_inttoptr(self, st, fr, x):
        v = self.val(fr, x["ops"][0])
        if isinstance(v, (Ptr, Null)):
            return v
        if isinstance(v, T) and isconst(v) and cval(v) == 0:
            return NULL
        raise Unsupported("inttoptr")

    def i_bitcast(self, st, fr, x):
        return self.val(fr, x["ops"][0])

    def i_freeze(self, st, fr, x):
        return self.val(fr, x["ops"][0])

    def i_select(self, st, fr, x):
        c = self.tobool(self.val(fr, x["ops"][0]))
        a, b = self.val(fr, x["ops"][1]), self.val(fr, x["ops"][2])
        d = st.decide(c)
        if d is True:
            return a
        if d is False:
            return b
        if isinstance(a, T) and isinstance(b, T) and a.sort == "B":
            return or_(and_(c, a), and_(not_(c), b))
        return vite(c, a, b)

    def i_extractvalue(self, st, fr, x):
        v = self.val(fr, x["ops"][0])
        if len(x["ix"]) != 1 or not isinstance(v, Agg):
            raise Unsupported("extractvalue")
        vs = sorted(v.vals, key=lambda p: p[0])
        return vs[x["ix"][0]][1]

    def i_insertvalue(self, st, fr, x):
        v = self.val(fr, x["ops"][0])
        y = self.val(fr, x["ops"][1])
        if len(x["ix"]) != 1:
            raise Unsupported("insertvalue")
        ty = x["ty"]
        if ty[0] == "struct":
            o = ty[2][x["ix"][0]][0]
        elif ty[0] == "array":
            o = x["ix"][0] * ty[3]
        else:
            raise Unsupported("insertvalue")
        vals = dict(v.vals) if isinstance(v, Agg) else {}
        vals[o] = y
        return Agg(sorted(vals.items()))

    def i_landingpad(self, st, fr, x):
        raise Unsupported("landingpad executed")

    def i_icmp(self, st, fr, x):
        a, b = self.ops2(fr, x)
        p = x["pred"]
        if a is UNDEF or b is UNDEF:
            raise Unsupported("undef comparison")
        if isinstance(a, (Ptr, Fn, Null)) or isinstance(b, (Ptr, Fn, Null)):
            return self.ptrcmp(st, p, a, b)
        if isinstance(a, T) and a.sort == "B" or isinstance(b, T) and b.sort == "B":
            a, b = self.tobool(a), self.tobool(b)
            return iff(a, b) if p == "eq" else not_(iff(a, b))
        n = bits_of(x["opty"])
        if p in ("slt", "sle", "sgt", "sge"):
            a, b = self.signed(st, a, n), self.signed(st, b, n)
        return {"eq": eq, "ne": lambda u, v: not_(eq(u, v)), "slt": lt, "ult": lt, "sle": le, "ule": le,
                "sgt": gt, "ugt": gt, "sge": ge, "uge": ge}[p](a, b)

    def ptrcmp(self, st, p, a, b):
        if a is NULL or b is NULL:
            e = (a is NULL and b is NULL)
            if not (p in ("eq", "ne")):
                raise Unsupported("null comparison")
            return TRUE if e == (p == "eq") else FALSE
        if isinstance(a, Fn) or isinstance(b, Fn):
            e = isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
            return TRUE if e == (p == "eq") else FALSE
        if isinstance(a, T) or isinstance(b, T):
            raise Unsupported("pointer/integer comparison")
        if a.root != b.root or len(a.path) != len(b.path) or a.path[:-2] != b.path[:-2]:
            if p == "eq" and a.root != b.root:
                return FALSE
            if p == "ne" and a.root != b.root:
                return TRUE
            raise Unsupported("comparison of unrelated pointers")
        d = self.ptrdiff(st, a, b)
        return {"eq": lambda: eq(d, I(0)), "ne": lambda: not_(eq(d, I(0))), "ult": lambda: lt(d, I(0)), "slt": lambda: lt(d, I(0)),
                "ule": lambda: le(d, I(0)), "ugt": lambda: gt(d, I(0)), "sgt": lambda: gt(d, I(0)), "uge": lambda: ge(d, I(0)), "sle": lambda: le(d, I(0)), "sge": lambda: ge(d, I(0))}[p]()

    # reals ---------------------------------------------------------------------
    def ops2r(self, fr, x):
        a, b = self.ops2(fr, x)
        if not (isinstance(a, T) and isinstance(b, T)):
            raise Unsupported("undefined floating-point operand")
        if x["ty"] not in ("double", "i1"):
            raise Unsupported("floating-point type %s" % (x["ty"],))
        return a, b

    def i_fadd(self, st, fr, x):
        return add(*self.ops2r(fr, x))

    def i_fsub(self, st, fr, x):
        return sub(*self.ops2r(fr, x))

    def i_fmul(self, st, fr, x):
        return mul(*self.ops2r(fr, x))

    def i_fdiv(self, st, fr, x):
        a, b = self.ops2r(fr, x)
        if self.check_fdiv:
            self.oblig(st, not_(eq(b, R(0))), "division by zero in the reals", "definedness")
        return rdiv(a, b)

    def i_fneg(self, st, fr, x):
        return neg(self.val(fr, x["ops"][0]))

    def i_fcmp(self, st, fr, x):
        a, b = self.ops2(fr, x)
        p = x["pred"]
        if p in ("ord", "true"):
            return TRUE
        if p in ("uno", "false"):
            return FALSE
        q = p[1:]
        return {"eq": eq, "ne": lambda u, v: not_(eq(u, v)), "lt": lt, "le": le, "gt": gt, "ge": ge}[q](a, b)

    def i_uitofp(self, st, fr, x):
        if x["ty"] != "double":
            raise Unsupported("conversion to %s" % x["ty"])
        return i2r(self.toint(self.val(fr, x["ops"][0])))

    def i_sitofp(self, st, fr, x):
        if x["ty"] != "double":
            raise Unsupported("conversion to %s" % x["ty"])
        v = self.toint(self.val(fr, x["ops"][0]))
        return i2r(self.signed(st, v, bits_of(x["fty"])))

    def i_fptrunc(self, st, fr, x):
        return app("round_to_float", (self.val(fr, x["ops"][0]),), "R")

    def i_fpext(self, st, fr, x):
        return self.val(fr, x["ops"][0])

    def _trunc(self, st, fr, x):
        v = self.val(fr, x["ops"][0])
        if isconst(v):
            return I(int(cval(v)))
        r = app("trunc", (v,), "I")
        st.assume(implies(ge(v, R(0)), and_(le(i2r(r), v), lt(v, add(i2r(r), R(1))), ge(r, I(0)))))
        return r

    def i_fptoui(self, st, fr, x):
        return self._trunc(st, fr, x)

    def i_fptosi(self, st, fr, x):
        return self.wrap(st, self._trunc(st, fr, x), bits_of(x["ty"]))

    # math functions --------------------------------------------------------------
    def fabs(self, st, v):
        d = st.decide(ge(v, R(0)))
        if d is True:
            return v
        if d is False:
            return neg(v)
        return ite(ge(v, R(0)), v, neg(v))

    def math(self, st, fn, a):
        if any(not isinstance(v, T) for v in a):
            raise Unsupported("undefined math operand")
        if fn == "sqrt":
            v = a[0]
            if isconst(v) and cval(v) >= 0:
                import math as m
                fr_ = Fraction(cval(v))
                p, q = m.isqrt(fr_.numerator), m.isqrt(fr_.denominator)
                if p * p == fr_.numerator and q * q == fr_.denominator:
                    return R(Fraction(p, q))
            r = app("sqrt", (v,), "R")
            st.assume(ge(r, R(0)))
            sq = mk("poly", ((((r, 2),), 1),), "R")
            st.assume(implies(ge(v, R(0)), eq0(sub(sq, v))))
            return r
        if fn in ("cos", "sin"):
            return self.trig(st, fn, a[0])
        if fn == "pow":
            b, e = a
            if isconst(e) and Fraction(cval(e)).denominator == 1 and abs(cval(e)) <= 16:
                n = int(cval(e))
                if n >= 0:
                    return ipow(b, n)
                return rdiv(R(1), ipow(b, -n))
            if isconst(e) and Fraction(cval(e)) == Fraction(1, 2):
                return self.math(st, "sqrt", [b])
            return self.canon_app("pow", [b, e])
        if fn == "exp":
            return self.canon_app("exp", a)
        if fn == "log":
            return self.canon_app("log", a)
        if fn == "fabs":
            return self.fabs(st, a[0])
        L2 = lambda k: app("log", (R(k),), "R")
        if fn == "log1p":
            return self.math(st, "log", [add(R(1), a[0])])
        if fn in ("log2", "log10"):
            return rdiv(self.math(st, "log", a), L2(2) if fn == "log2" else add(L2(2), L2(5)))
        if fn == "expm1":
            return sub(self.math(st, "exp", a), R(1))
        if fn == "exp2":
            return self.math(st, "exp", [mul(a[0], L2(2))])
        if fn == "tan":
            return rdiv(self.trig(st, "sin", a[0]), self.trig(st, "cos", a[0]))
        if fn in ("sinh", "cosh", "tanh"):
            u, v = self.math(st, "exp", a), self.math(st, "exp", [neg(a[0])])
            n, d = (add if fn == "cosh" else sub)(u, v), add(u, v)
            return rdiv(n, d) if fn == "tanh" else scale(n, Fraction(1, 2))
        if fn == "hypot":
            return self.math(st, "sqrt", [add(*[mul(v, v) for v in a])])
        if fn in ("floor", "ceil", "tan", "acos", "asin", "atan", "tanh", "sinh", "cosh", "log1p", "expm1", "cbrt", "log2", "log10", "atan2", "hypot", "exp2"):
            return self.canon_app(fn, a)
        raise Unsupported("math function %s" % fn)

    def canon_app(self, fn, args):
        """application identified with an earlier one when the arguments are ring-equal"""
        lst = self.trigs.setdefault(fn, [])
        for old, t in lst:
            if all(x is y for x, y in zip(old, args)):
                return t
        for old, t in lst:
            if all(ring_equal(x, y) for x, y in zip(old, args)):
                return t
        t = app(fn, tuple(args), "R")
        lst.append((tuple(args), t))
        return t

    def trig(self, st, fn, arg):
        """cos/sin with argument reduced by parity and multiples of pi"""
        if isconst(arg) and cval(arg) == 0:
            return R(1) if fn == "cos" else R(0)
        q = _ratio(arg, PI)
        if q is not None:
            q2 = (Fraction(q) * 2)
            if q2.denominator == 1:
                k = q2.numerator % 4
                return R([1, 0, -1, 0][k] if fn == "cos" else [0, 1, 0, -1][k])
        base, sgn_c, sgn_s = None, 1, 1
        lst = self.trigs.setdefault("trigbase", [])
        for b in lst:
            if b is arg:
                base = (b, 1, 1)
                break
        if base is None:
            for b in lst:
                for k in (0, 1, -1, 2, -2):
                    kp = scale(PI, k)
                    # arg = b + k pi
                    if ring_equal(arg, add(b, kp)):
                        s = -1 if k % 2 else 1
                        base = (b, s, s)
                        break
                    # arg = k pi - b
                    if ring_equal(arg, sub(kp, b)):
                        s = -1 if k % 2 else 1
                        # cos(k pi - b) = s cos b ; sin(k pi - b) = -s sin b
                        base = (b, s, -s)
                        break
                if base:
                    break
        if base is None:
            lst.append(arg)
            base = (arg, 1, 1)
        b, sc, ss = base
        c, s = app("cos", (b,), "R"), app("sin", (b,), "R")
        st.assume(eq0(sub(add(mul(c, c), mul(s, s)), R(1))))
        st.assume(le(c, R(1)))
        st.assume(ge(c, R(-1)))
        return scale(c, sc) if fn == "cos" else scale(s, ss)


from .term import _ratio
