"""Contracts of the <algorithm> functions used on iterator ranges, and the
content classes that carry their facts (permutations, sorted iterator lists)."""
import re
from .term import *
from .sym import *
from . import lib
from .sym import NeedHavoc
from .lib import base_of, elemptr, range_of, read_cells, ret, layout


class EFact(Elems):
    """contents of `base`, whose element idx satisfies f(st, args, base, idx) (a proved or
    contractual universally quantified fact, instantiated at every index that is read)"""
    carries_facts = True

    def __init__(self, base, name, f, args=()):
        self.base, self.name, self.f, self.args = base, name, f, tuple(args)

    def subst(self, m, memo):
        return EFact(self.base.subst(m, memo), self.name, self.f, [vsubst(a, m, memo) for a in self.args])

    def get(self, st, idx, off, ty):
        mark = app("inst:" + self.name, self.args_t() + (idx,), "B")
        if mark not in st.facts:
            st.facts = st.facts + [mark]
            st.eng.mute += 1
            try:
                for g in self.f(st, self.args, self.base, idx):
                    st.assume(g)
            finally:
                st.eng.mute -= 1
        return self.base.get(st, idx, off, ty)

    def args_t(self):
        return tuple(a for a in self.args if isinstance(a, T))

    def __repr__(self):
        return "%s{%r}" % (self.name, self.base)


class EPerm(Elems):
    """base permuted within [lo,hi): element idx is base[pi(idx)], pi a bijection of [lo,hi)
    that is the identity elsewhere"""

    def __init__(self, base, pi, lo, hi):
        self.base, self.pi, self.lo, self.hi = base, pi, lo, hi

    def subst(self, m, memo):
        return EPerm(self.base.subst(m, memo), self.pi, subst(self.lo, m, memo), subst(self.hi, m, memo))

    def at(self, st, idx):
        p = app("perm:" + self.pi, (idx,), "I")
        c = and_(ge(idx, self.lo), lt(idx, self.hi))
        rng = implies(c, and_(ge(p, self.lo), lt(p, self.hi)))
        if rng in st.facts:
            return p
        d = st.decide(c)
        if d is False:
            return idx
        st.facts = st.facts + [rng]
        st.assume(and_(ge(p, self.lo), lt(p, self.hi)) if d is True else rng)
        if d is not True:
            st.assume(implies(not_(c), eq(p, idx)))
        return p

    def get(self, st, idx, off, ty):
        return self.base.get(st, self.at(st, idx), off, ty)

    def __repr__(self):
        return "perm %s[%s,%s)(%r)" % (self.pi, self.lo, self.hi, self.base)


class EPtrs(Elems):
    """pointers into one array: element idx points to element name(idx) of the array at `arr`"""

    def __init__(self, arr, stride, name, args=()):
        self.arr, self.stride, self.name, self.args = arr, stride, name, tuple(args)

    def subst(self, m, memo):
        return EPtrs(vsubst(self.arr, m, memo), self.stride, self.name, [subst(a, m, memo) for a in self.args])

    def ix(self, idx):
        return app("pidx:" + self.name, self.args + (idx,), "I")

    def get(self, st, idx, off, ty):
        if off != 0:
            return UNDEF
        return elemptr(self.arr, self.ix(idx), self.stride)

    def __repr__(self):
        return "ptrs %s" % self.name


# ------------------------------------------------------------------ predicates
STDNS = re.compile(r"_ZN?K?(?:St|S[absiod]|9__gnu_cxx)|_ZNKSt|_ZNSt|_ZNK9__gnu_cxx|_ZN9__gnu_cxx")


def find_pred(eng, fname):
    """the user-supplied function object called (transitively) by a library algorithm"""
    seen, todo, found = set(), [fname], set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        f = eng.fns.get(n)
        if f is None or f.get("decl"):
            continue
        for b in f["blocks"]:
            for x in b["ins"]:
                if x["op"] in ("call", "invoke"):
                    c = x.get("callee")
                    c = c[1] if c and c[0] == "g" else None
                    if c is None or c.startswith("llvm."):
                        continue
                    if is_std(c):
                        todo.append(c)
                    elif c in eng.fns and len(eng.fns[c]["args"]) >= 2 and "operator()" in eng.fns[c]["dem"]:
                        found.add(c)
                    elif c in eng.fns and not eng.fns[c].get("decl") and not c.startswith("_Z"):
                        continue
    if len(found) != 1:
        raise Unsupported("predicate of %s" % eng.fns[fname]["dem"][:80])
    return found.pop()


def is_std(n):
    """a function of namespace std / __gnu_cxx (not a user lambda nested in template arguments)"""
    return bool(re.match(r"_ZN?V?K?(?:St|Sa|Ss|9__gnu_cxx)", n)) or bool(re.match(r"_Z(?:St|SaI)", n))


def closure(eng, st, f, args, k):
    """memory object of the function object passed in argument registers k.."""
    root = st.new_root("closure")
    fa = f["args"]
    if len(args) > k and fa[k].get("byval"):
        return args[k]
    cells = {}
    for n, a in enumerate(args[k:]):
        cells[8 * n] = a
    st.mem[root] = cells
    return Ptr(root, (0,))


def sym_pred(eng, st, fn, clo, elems, es, lay):
    """truth value of the predicate for the given element cells, as a term"""
    s = st.fork()
    ps = []
    for cells in elems:
        r = s.new_root("predarg")
        s.mem[r] = dict(cells)
        ps.append(Ptr(r, (0,)))
    byval = eng.fns[fn]["args"]
    args = [clo]
    for p, a in zip(ps, byval[1:]):
        args.append(p if a["ty"] == "ptr" and not (set(lay) == {0} and lay[0] == "ptr") else s.mem[p.root].get(0))
    n0 = len(s.pc)
    before = dict(s.mem)
    res = []
    eng.mute += 1
    try:
        outs = eng.call(s, fn, args, "pred")
    finally:
        eng.mute -= 1
    for o in outs:
        if o.kind != "ret" or not isinstance(o.val, T):
            raise Unsupported("predicate does not return a value")
        for r, c in before.items():
            if not r.startswith("predarg") and o.st.mem.get(r) is not c:
                raise Unsupported("predicate with side effects")
        v = eng.tobool(o.val)
        res.append(and_(*(list(o.st.pc[n0:]) + [v])))
    return or_(*res) if res else FALSE


def cells_at(st, el, idx, lay):
    out = {}
    for o, ty in lay.items():
        v = el.get(st, idx, o, ty)
        if v is not UNDEF:
            out[o] = v
    return out


class Pred:
    """a predicate over one or two elements, evaluated once on symbolic cells"""

    def __init__(self, eng, st, f, fname, args, k, es, lay, n):
        fn = find_pred(eng, fname)
        clo = closure(eng, st, f, args, k)
        self.vars = []
        for j in range(n):
            self.vars.append({o: var("arg%d@%d" % (j, o), SORT.get(ty, "I")) for o, ty in lay.items() if ty != "ptr"})
            if len(self.vars[-1]) != len(lay):
                raise Unsupported("predicate over pointers")
        self.t = sym_pred(eng, st, fn, clo, self.vars, es, lay)
        self.lay = lay

    def at(self, *cells):
        m = {}
        for vs, cs in zip(self.vars, cells):
            for o, v in vs.items():
                if o in cs:
                    m[v] = cs[o]
        return subst(self.t, m, {})


def the_range(eng, st, a, b):
    r = range_of(eng, st, a, b)
    if r[0] == "raw":
        raise Unsupported("algorithm on a raw range")
    el, s0, n, es, lay = r
    x = base_of(a)
    return el, s0, add(s0, n), es, lay, x[0] if x else None


def set_content(st, vp, el):
    v = st.readvec(vp)
    st.write(vp, Vec(v.len, el, v.esize, v.layout))


def uid(st, base):
    return st.fresh_name(base)


# ------------------------------------------------------------------ contracts
def h_partition(eng, st, args, f, m, path):
    """std::partition: permutes [b,e); [b,r) satisfies the predicate, [r,e) does not"""
    el, lo, hi, es, lay, vp = the_range(eng, st, args[0], args[1])
    fname = fname_of(eng, f)
    p = Pred(eng, st, f, fname, args, 2, es, lay, 1)
    nm = uid(st, "partition")
    r = st.skolem("cut:" + nm, "I")
    st.assume(and_(ge(r, lo), le(r, hi)))
    if st.ctrs:
        raise NeedHavoc("std::partition inside a summarised loop")

    def facts(s, a, base, idx):
        lo_, r_, hi_ = a
        c = p.at(cells_at(s, base, idx, lay))
        return [implies(and_(ge(idx, lo_), lt(idx, r_)), c), implies(and_(ge(idx, r_), lt(idx, hi_)), not_(c))]
    set_content(st, vp, EFact(EPerm(el, nm, lo, hi), nm, facts, (lo, r, hi)))
    return ret(st, elemptr(vp, r, es))


def fname_of(eng, f):
    for n, g in eng.fns.items():
        if g is f:
            return n
    raise Unsupported("function name")


def h_minmax(eng, st, args, f, m, path):
    """std::minmax_element / min_element / max_element with a comparator"""
    which = m.group(1)
    el, lo, hi, es, lay, vp = the_range(eng, st, args[0], args[1])
    if st.ctrs:
        raise NeedHavoc("std::%s_element inside a summarised loop" % which)
    if len(args) > 2 or "ops" in m.string:
        pass
    fname = fname_of(eng, f)
    try:
        p = Pred(eng, st, f, fname, args, 2, es, lay, 2)
        less = p.at
    except Unsupported:
        if list(lay) != [0] or lay[0] == "ptr" or default_less(f) is False:
            raise
        less = lambda a, b: lt(a[0], b[0])
    nm = uid(st, which + "_element")
    d = st.decide(eq(lo, hi))
    if d is not False:
        if d is True:
            res = {"min": [lo], "max": [lo], "minmax": [lo, hi]}[which]
            return pack(eng, st, f, [elemptr(vp, x, es) for x in res])
        s2 = st.fork()
        st.branch(lt(lo, hi))
        s2.branch(eq(lo, hi))
        o2 = pack(eng, s2, f, [elemptr(vp, lo, es)] * (2 if which == "minmax" else 1))
    else:
        o2 = []
    ws = []
    for k in (["min", "max"] if which == "minmax" else [which]):
        w = st.skolem("arg%s:%s" % (k, nm), "I")
        st.assume(and_(ge(w, lo), lt(w, hi)))
        ws.append((k, w))

    def facts(s, a, base, idx):
        lo_, hi_ = a[:2]
        c = cells_at(s, base, idx, lay)
        out = []
        for (k, _), w in zip(ws, a[2:]):
            cw = cells_at(s, base, w, lay)
            out.append(implies(and_(ge(idx, lo_), lt(idx, hi_)), not_(less(c, cw)) if k == "min" else not_(less(cw, c))))
        return out
    set_content(st, vp, EFact(el, nm, facts, (lo, hi) + tuple(w for _, w in ws)))
    return pack(eng, st, f, [elemptr(vp, w, es) for _, w in ws]) + o2


def default_less(f):
    return None if "_Iter_less" in f["dem"] or f["dem"].count(">") else None


def pack(eng, st, f, ps):
    if len(ps) == 1:
        return ret(st, ps[0])
    if f["args"][0].get("sret"):
        raise Unsupported("minmax result in memory")
    return ret(st, Agg([(8 * k, p) for k, p in enumerate(ps)]))


def h_any(eng, st, args, f, m, path):
    """std::any_of / all_of / none_of: a witness, or a universally quantified fact"""
    which = m.group(1)
    el, lo, hi, es, lay, vp = the_range(eng, st, args[0], args[1])
    if st.ctrs:
        raise NeedHavoc("std::%s_of inside a summarised loop" % which)
    fname = fname_of(eng, f)
    p = Pred(eng, st, f, fname, args, 2, es, lay, 1)
    nm = uid(st, which + "_of")
    pos = (lambda c: not_(p.at(c))) if which == "all" else (lambda c: p.at(c))
    # exists: some element satisfies pos
    se, sf = st.fork(), st
    w = se.skolem("witness:" + nm, "I")
    se.branch(and_(ge(w, lo), lt(w, hi)))
    se.branch(pos(cells_at(se, el, w, lay)))

    def facts(s, a, base, idx):
        lo_, hi_ = a
        return [implies(and_(ge(idx, lo_), lt(idx, hi_)), not_(pos(cells_at(s, base, idx, lay))))]
    set_content(sf, vp, EFact(el, nm, facts, (lo, hi)))
    outs = []
    if eng.feasible(se):
        outs.append(Outcome(se, "ret", TRUE if which == "any" else FALSE))
    outs.append(Outcome(sf, "ret", FALSE if which == "any" else TRUE))
    return outs


# ---- iterator lists ---------------------------------------------------------
def key_of(st, el, idx, lay, arr=None):
    """orderable key of element idx: the index a pointer refers to, or a scalar"""
    if list(lay) != [0]:
        raise Unsupported("ordering of a record")
    v = el.get(st, idx, 0, lay[0])
    if isinstance(v, T):
        return v, None
    b = base_of(v)
    if b is None or b[2] != 0:
        raise Unsupported("ordering of %r" % (v,))
    return b[1], (b[0], v.path[-2][1])


def seq_proves(eng, st, el, lo, hi, lay, strict):
    """is the range sorted (strictly increasing)?"""
    s = st.fork()
    i = s.skolem("sorted", "I")
    s.assume(and_(ge(i, lo), lt(add(i, I(1)), hi)))
    if not eng.feasible(s):
        return True
    eng.mute += 1
    try:
        if isconst(lo) and isconst(hi) and cval(hi) - cval(lo) <= 80:
            ks = [key_of(s, el, I(j), lay)[0] for j in range(cval(lo), cval(hi))]
            return all(st_proves(s, (lt if strict else le)(a, b)) for a, b in zip(ks, ks[1:]))
        a, _ = key_of(s, el, i, lay)
        b, _ = key_of(s, el, add(i, I(1)), lay)
    finally:
        eng.mute -= 1
    return st_proves(s, (lt if strict else le)(a, b))


def st_proves(s, g):
    """proof with case distinction on the conditional terms of g"""
    from .prove import find_ite
    todo = [(s, g)]
    n = 0
    while todo:
        s, g = todo.pop()
        n += 1
        if n > 200:
            return False
        x = find_ite(g)
        if x is not None:
            c = x.args[0]
            d = s.decide(c)
            if d is not False:
                s2 = s.fork() if d is None else s
                s2.assume(c)
                if d is True or s.eng.feasible(s2):
                    todo.append((s2, subst(g, {x: x.args[1]})))
            if d is not True:
                s3 = s.fork()
                s3.assume(not_(c))
                if d is False or s.eng.feasible(s3):
                    todo.append((s3, subst(g, {x: x.args[2]})))
            continue
        if not s.proves(g):
            return False
    return True


def fresh_seq(eng, st, nm, n, arr, lay, first, last, strict, extra=None):
    """contents of a sorted list with given first and last key (n >= 1 implied by the caller)"""
    if arr is None:
        base = EFun(nm)
        kv = lambda s, b, i: b.get(s, i, 0, lay[0])
    else:
        base = EPtrs(arr[0], arr[1], nm)
        kv = lambda s, b, i: b.ix(i)

    def facts(s, a, b, i):
        n_, f_, l_ = a[:3]
        inr = and_(ge(i, I(0)), lt(i, n_))
        k = kv(s, b, i)
        rel = lt if strict else le
        out = [implies(inr, and_(le(f_, k), le(k, l_))),
               implies(and_(inr, lt(add(i, I(1)), n_)), rel(k, kv(s, b, add(i, I(1))))),
               implies(and_(inr, ge(i, I(1))), rel(kv(s, b, sub(i, I(1))), k)),
               implies(gt(n_, I(0)), and_(eq(kv(s, b, I(0)), f_), eq(kv(s, b, sub(n_, I(1))), l_)))]
        if strict:
            # strictly increasing integers: only the first entry has the first key, only the last the last
            out += [implies(and_(inr, gt(i, I(0))), lt(f_, k)), implies(and_(inr, lt(i, sub(n_, I(1)))), lt(k, l_))]
        if extra:
            out += extra(s, a[3:], b, i, k)
        return out
    return EFact(base, nm, facts, (n, first, last))


def h_sort(eng, st, args, f, m, path):
    """std::sort with operator<: a sorted permutation of the range"""
    el, lo, hi, es, lay, vp = the_range(eng, st, args[0], args[1])
    if st.ctrs:
        raise NeedHavoc("std::sort inside a summarised loop")
    if len(args) > 2:
        raise Unsupported("std::sort with a comparator")
    v = st.readvec(vp)
    if st.decide(eq(lo, I(0))) is not True or st.decide(eq(hi, v.len)) is not True:
        raise Unsupported("std::sort of part of a container")
    if st.decide(le(hi, I(1))) is True:
        return ret(st)
    nm = uid(st, "sorted")
    n = v.len
    s = st
    s2 = None
    if st.decide(gt(n, I(0))) is not True:
        s2 = st.fork()
        s2.branch(eq(n, I(0)))
        st.branch(gt(n, I(0)))
        if not eng.feasible(s2):
            s2 = None
    # first and last key are keys of the input
    tf, tl = st.skolem("argmin:" + nm, "I"), st.skolem("argmax:" + nm, "I")
    st.assume(and_(ge(tf, I(0)), lt(tf, n), ge(tl, I(0)), lt(tl, n)))
    kf, arr = key_of(st, el, tf, lay)
    kl, _ = key_of(st, el, tl, lay)
    src = v.el
    set_content(st, vp, fresh_seq(eng, st, nm, n, arr, lay, kf, kl, False))
    return ret(st) + (ret(s2) if s2 is not None else [])


def h_unique(eng, st, args, f, m, path):
    """std::unique of a sorted range: strictly increasing, same first and last key"""
    el, lo, hi, es, lay, vp = the_range(eng, st, args[0], args[1])
    if st.ctrs:
        raise NeedHavoc("std::unique inside a summarised loop")
    if len(args) > 2:
        raise Unsupported("std::unique with a predicate")
    v = st.readvec(vp)
    if st.decide(eq(lo, I(0))) is not True or st.decide(eq(hi, v.len)) is not True:
        raise Unsupported("std::unique of part of a container")
    if st.decide(eq(hi, I(0))) is True:
        return ret(st, elemptr(vp, I(0), es))
    if not seq_proves(eng, st, el, I(0), v.len, lay, False):
        raise Unsupported("std::unique of a range not known to be sorted")
    nm = uid(st, "unique")
    n = v.len
    s2 = None
    if st.decide(gt(n, I(0))) is not True:
        s2 = st.fork()
        s2.branch(eq(n, I(0)))
        st.branch(gt(n, I(0)))
    kf, arr = key_of(st, el, I(0), lay)
    kl, _ = key_of(st, el, sub(n, I(1)), lay)
    k = st.skolem("len:" + nm, "I")
    st.assume(and_(ge(k, I(1)), le(k, n)))
    # one entry exactly when all keys are equal
    st.assume(iff(eq(k, I(1)), eq(kf, kl)))
    set_content(st, vp, fresh_seq(eng, st, nm, k, arr, lay, kf, kl, True))
    return ret(st, elemptr(vp, k, es)) + (ret(s2, elemptr(vp, I(0), es)) if s2 is not None else [])


def h_set_union(eng, st, args, f, m, path):
    """std::set_union of two strictly increasing ranges into a back_inserter: strictly
    increasing, the smaller first and the larger last key"""
    if st.ctrs:
        raise NeedHavoc("std::set_union inside a summarised loop")
    a = the_range(eng, st, args[0], args[1])
    b = the_range(eng, st, args[2], args[3])
    out = args[4]
    if not isinstance(out, Ptr) or len(args) > 5:
        raise Unsupported("std::set_union output")
    ov = st.readvec(out)
    if st.decide(eq(ov.len, I(0))) is not True:
        raise Unsupported("std::set_union into a non-empty container")
    lay = a[4]
    for x in (a, b):
        if not seq_proves(eng, st, x[0], x[1], x[2], lay, True):
            raise Unsupported("std::set_union of a range not known to be strictly increasing")
    na, nb = sub(a[2], a[1]), sub(b[2], b[1])
    outs = []
    cases = []
    for ea in (False, True):
        for eb in (False, True):
            s = st.fork()
            s.branch(eq(na, I(0)) if ea else gt(na, I(0)))
            s.branch(eq(nb, I(0)) if eb else gt(nb, I(0)))
            if eng.feasible(s):
                cases.append((s, ea, eb))
    for s, ea, eb in cases:
        if ea and eb:
            outs += ret(s, out)
            continue
        if ea or eb:
            x = b if ea else a
            s.write(out, Vec(sub(x[2], x[1]), lib.slice_(x[0], x[1]), ov.esize, ov.layout))
            outs += ret(s, out)
            continue
        nm = uid(s, "union")
        fa, arr = key_of(s, a[0], a[1], lay)
        fb, arrb = key_of(s, b[0], b[1], lay)
        la, _ = key_of(s, a[0], sub(a[2], I(1)), lay)
        lb, _ = key_of(s, b[0], sub(b[2], I(1)), lay)
        if arr is not None and (arrb is None or not arr[0].same(arrb[0])):
            raise Unsupported("std::set_union of pointers into different arrays")
        first, last = s.skolem("first:" + nm, "I"), s.skolem("last:" + nm, "I")
        s.assume(and_(le(first, fa), le(first, fb), or_(eq(first, fa), eq(first, fb))))
        s.assume(and_(ge(last, la), ge(last, lb), or_(eq(last, la), eq(last, lb))))
        n = s.skolem("len:" + nm, "I")
        s.assume(and_(ge(n, na), ge(n, nb), le(n, add(na, nb))))
        s.write(out, Vec(n, fresh_seq(eng, s, nm, n, arr, lay, first, last, True), ov.esize, ov.layout))
        outs += ret(s, out)
    return outs


def h_now(eng, st, args, f, m, path):
    """clock value: arbitrary"""
    v = st.skolem("clock", "I")
    st.assume(and_(ge(v, I(0)), lt(v, I(1 << 62))))
    return ret(st, v)


def h_chrono(eng, st, args, f, m, path):
    """elapsed time: arbitrary"""
    return ret(st, st.skolem("elapsed", "R"))


ALGO = [(re.compile(rx), h) for rx, h in [
    (r"_ZSt(?:9partition|16stable_partition)I", h_partition),
    (r"_ZSt\d+(minmax|min|max)_elementI", h_minmax),
    (r"_ZSt\d+(any|all|none)_ofI", h_any),
    (r"_ZSt(?:4sort|11stable_sort)I", h_sort),
    (r"_ZSt6uniqueI", h_unique),
    (r"_ZSt9set_unionI", h_set_union),
    (r"_ZNSt6chrono.*3nowEv", h_now),
    (r".*std::chrono::duration<double.*::count\(\) const", h_chrono),
]]
