import os
"""Loops whose effect has no closed form: the modified cells are replaced by arbitrary
values, and inductive relations between them are selected from a fixed vocabulary
(sorted lists, equal ends, ranges, permutation of the entry contents, differences of
neighbouring entries, bounds between counters).  Every relation kept is proved on entry
and preserved by the body (obligations of the final pass)."""
from .term import *
from .sym import *
from .sym import NeedHavoc
from .solver import entails
from . import algo
from .algo import EFact, EPerm, EPtrs, key_of


def lay_of(v):
    return v.layout or {}


def is_list(v):
    return isinstance(v, Vec) and list(lay_of(v)) == [0] and lay_of(v)[0] in ("ptr", "i64")


def perm_of(el, hdr):
    """el is a chain of permutations on top of the header contents hdr"""
    while True:
        if el is hdr:
            return True
        if isinstance(el, EPerm):
            if isinstance(hdr, EPerm) and el.pi == hdr.pi:
                return True
            el = el.base
        elif isinstance(el, EFact):
            el = el.base
        else:
            return False


def layers(el, hdr):
    out = []
    while el is not hdr and not (isinstance(el, EPerm) and isinstance(hdr, EPerm) and el.pi == hdr.pi):
        if isinstance(el, EPerm):
            out.append(el)
        el = el.base
    return out


class Cand:
    def __init__(self, name, keys, goal, vec=None):
        # goal(s, V[, i]) -> term; vec: key of the list quantified over
        self.name, self.keys, self.goal, self.vec = name, keys, goal, vec


class HavocMixin:
    def havoc_loop(self, st0, fr, loop, prev):
        eng = self
        if st0.ctrs:
            raise NeedHavoc("loop with arbitrary effects inside a summarised loop")
        tag = st0.fresh_name("inv")
        where = "%s:%s" % (self.fns[fr.fn]["dem"][:40], self.loop_line(fr.fn, loop))
        roots0 = [r for r in st0.mem if not r.startswith("closure") and not r.startswith("predarg")]
        pref = "L:%s/%s" % (fr.path, fr.fn)
        kinds = {}        # key -> (kind, data)

        def cell(s, key):
            v = s.mem.get(key[0], {}).get(key[1], UNDEF)
            return v

        def proves(s, g):
            return algo.st_proves(s, g)

        # ---- header state for the current kinds and candidates
        def header(cands):
            s = st0.fork()
            s.pc = st0.pc
            V = {}
            for key, (kind, data) in kinds.items():
                cells = dict(s.mem[key[0]])
                s.mem[key[0]] = cells
                v0 = cell(st0, key)
                nm = "%s.%s.%s" % (tag, key[0].rsplit(".", 1)[-1] if key[0].startswith(pref) else key[0], key[1])
                if key[1] == "all":
                    s.mem[key[0]] = {}      # a local set by memset in the body: no value at the header
                    continue
                if kind == "undef":
                    cells[key[1]] = UNDEF
                elif kind == "int":
                    h = var(nm, "I")
                    s.assume(and_(ge(h, I(0)), lt(h, I(1 << data))))
                    cells[key[1]] = h
                elif kind == "real":
                    cells[key[1]] = var(nm, "R")
                elif kind == "perm":
                    cells[key[1]] = Vec(v0.len, EPerm(v0.el, nm, I(0), v0.len), v0.esize, v0.layout)
                elif kind in ("ptrs", "ints"):
                    n = var(nm + ".len", "I")
                    s.assume(and_(ge(n, I(0)), le(n, I(eng.MAXLEN))))
                    el = EPtrs(data[0], data[1], nm) if kind == "ptrs" else EFun(nm)
                    cells[key[1]] = Vec(n, el, v0.esize, v0.layout)
                V[key] = cells[key[1]]
            for c in cands:
                if c.vec is None:
                    g = self.hv_goal(c, s, None)
                    if g is not None:
                        s.assume(g)
            for key, (kind, data) in kinds.items():
                mine = [c for c in cands if c.vec == key]
                if kind in ("ptrs", "ints") and mine:
                    cells = dict(s.mem[key[0]])
                    s.mem[key[0]] = cells
                    v = cells[key[1]]
                    hs = s

                    def facts(t, a, base, i, mine=mine, v=v, key=key):
                        inr = and_(ge(i, I(0)), lt(i, v.len))
                        out = []
                        # evaluate in the header's memory, with this list's bare contents
                        for c in mine:
                            u = State(eng)
                            u.mem, u.facts, u.fresh, u.ctrs, u.quants = hdrmem[0], t.facts, t.fresh, t.ctrs, t.quants
                            g = c.goal(u, lambda k: Vec(v.len, base, v.esize, v.layout) if k == key else cell(u, k), i)
                            t.facts = u.facts
                            if g is not None:
                                out.append(implies(inr, g))
                        return out
                    cells[key[1]] = Vec(v.len, EFact(v.el, "%s.%s" % (tag, key), facts), v.esize, v.layout)
            hdrmem[0] = dict(s.mem)
            return s
        hdrmem = [None]

        def body(s, mute):
            saved = eng.mute
            if mute:
                eng.mute += 1
            try:
                return eng.run_region(s.fork(), fr.fork(), loop.header, prev, loop.header, loop.blocks)
            finally:
                eng.mute = saved

        # ---- vocabulary
        def vocabulary():
            out = []
            ints = [k for k, (kd, d) in kinds.items() if kd == "int"]
            lists = [k for k, (kd, d) in kinds.items() if kd in ("ptrs", "ints")]
            loc = []
            for r in roots0:
                if not r.startswith(pref):
                    continue
                for off, v in st0.mem[r].items():
                    if off == "zero":
                        continue
                    if isinstance(v, T) and v.sort == "I" or is_list(v):
                        if kinds.get((r, off), ("",))[0] != "undef":
                            loc.append((r, off))
            term = lambda v: v.len if isinstance(v, Vec) else v
            for x in ints + lists:
                for y in loc:
                    if x == y:
                        continue
                    for c in (0, 1, -1):
                        out.append(Cand("%s = %s%+d" % (x, y, c), (x, y), lambda s, V, x=x, y=y, c=c: eq(term(V(x)), add(term(V(y)), I(c)))))
                    if x in ints:
                        out.append(Cand("%s <= %s" % (x, y), (x, y), lambda s, V, x=x, y=y: le(term(V(x)), term(V(y)))))
            for x in lists:
                v0 = cell(st0, x)
                lay = v0.layout
                kd, data = kinds[x]
                key = lambda s, V, x, i, lay=lay: key_of(s, V(x).el, i, lay)[0]
                for nm, rel in (("strictly increasing", lt), ("nondecreasing", le)):
                    out.append(Cand("%s is %s" % (x, nm), (x,), lambda s, V, i, x=x, rel=rel, key=key: implies(lt(add(i, I(1)), V(x).len), rel(key(s, V, x, i), key(s, V, x, add(i, I(1))))), x))
                out.append(Cand("%s is not empty" % (x,), (x,), lambda s, V, x=x: ge(V(x).len, I(1))))
                out.append(Cand("%s has two entries" % (x,), (x,), lambda s, V, x=x: ge(V(x).len, I(2))))
                bounds = []
                if proves(st0, ge(v0.len, I(1))):
                    s0 = st0.fork()
                    eng.mute += 1
                    try:
                        f0, l0 = key_of(s0, v0.el, I(0), lay)[0], key_of(s0, v0.el, sub(v0.len, I(1)), lay)[0]
                    finally:
                        eng.mute -= 1
                    st0.facts = list(s0.facts)      # what is known of the two entries
                    bounds.append((f0, l0))
                    out.append(Cand("%s keeps its first entry" % (x,), (x,), lambda s, V, i, x=x, f0=f0, key=key: implies(eq(i, I(0)), eq(key(s, V, x, i), f0)), x))
                    out.append(Cand("%s keeps its last entry" % (x,), (x,), lambda s, V, i, x=x, l0=l0, key=key: implies(eq(i, sub(V(x).len, I(1))), eq(key(s, V, x, i), l0)), x))
                if kd == "ptrs":
                    bounds.append((I(0), st0.readvec(data[0]).len))
                for b0, b1 in bounds:
                    out.append(Cand("%s within bounds" % (x,), (x,), lambda s, V, i, x=x, b0=b0, b1=b1, key=key: and_(le(b0, key(s, V, x, i)), le(key(s, V, x, i), b1)), x))
                if kd == "ints":
                    for y in loc:
                        vy = cell(st0, y)
                        if y != x and is_list(vy):
                            ky = lambda s, V, y, i, lay=vy.layout: key_of(s, V(y).el, i, lay)[0]
                            out.append(Cand("%s[i] = %s[i+1]-%s[i]" % (x, y, y), (x, y), lambda s, V, i, x=x, y=y, key=key, ky=ky: eq(key(s, V, x, i), sub(ky(s, V, y, add(i, I(1))), ky(s, V, y, i))), x))
            return out

        def holds(c, s, record=None):
            """candidate c in state s"""
            s = s.fork()
            V = lambda k: cell(s, k)
            for k in c.keys:
                v = V(k)
                if v is UNDEF or not isinstance(v, (T, Vec)):
                    return False
            eng.mute += 1
            try:
                if c.vec is None:
                    g = c.goal(s, V)
                else:
                    i = s.skolem("any", "I")
                    s.assume(and_(ge(i, I(0)), lt(i, V(c.vec).len)))
                    if not eng.feasible(s):
                        g = TRUE
                    else:
                        g = c.goal(s, V, i)
            except Unsupported:
                return False
            finally:
                eng.mute -= 1
            if record:
                return self.hv_record(s, g, record)
            return proves(s, g)

        # ---- modified cells
        for rnd in range(16):
            cands = [c for c in vocabulary() if holds(c, st0)]
            s = header(cands)
            o, b, e = body(s, True)
            new = False
            for _, bs, bf in b:
                for root in roots0:
                    c0, c1 = s.mem.get(root), bs.mem.get(root)
                    if c1 is None or c0 is c1:
                        continue
                    for off in sorted(set(c0) | set(c1), key=str):
                        if off == "zero":
                            if c0.get(off) != c1.get(off) and (root, "all") not in kinds:
                                kinds[(root, "all")] = ("undef", None)
                                new = True
                            continue
                        if (root, "all") in kinds:
                            continue
                        key = (root, off)
                        a0, a1 = c0.get(off, UNDEF), c1.get(off, UNDEF)
                        k = kinds.get(key)
                        if k and k[0] == "undef":
                            continue
                        if a0 is a1 or (isinstance(a0, Ptr) and isinstance(a1, Ptr) and a0.same(a1)) or (isinstance(a0, (T, Fn)) and a0 == a1):
                            continue
                        if isinstance(a0, Vec) and isinstance(a1, Vec) and a0.len is a1.len and perm_of(a1.el, a0.el) and not layers(a1.el, a0.el):
                            continue        # only more is known about the contents
                        nk = self.hv_kind(k, cell(st0, key), a0, a1, bs)
                        if nk != k:
                            if os.environ.get("VF_HV"):
                                print("HV", tag, rnd, key[0][-60:], key[1], k, "->", nk, str(a0)[:80], str(a1)[:200], flush=True)
                            kinds[key] = nk
                            new = True
            if not new:
                break
        else:
            raise LoopFail("modified cells do not stabilise")
        if not b:
            raise LoopFail("the body never repeats")
        # ---- Houdini
        for rnd in range(40):
            keep = [c for c in cands if all(holds(c, bs) for _, bs, _ in b)]
            if os.environ.get("VF_HV"):
                for c in cands:
                    print("HC", rnd, "keep" if c in keep else "drop", self.hv_name(c), flush=True)
            if len(keep) == len(cands):
                break
            cands = keep
            s = header(cands)
            o, b, e = body(s, True)
        else:
            raise LoopFail("invariant candidates do not stabilise")
        # the abstraction of every modified cell must still hold
        for _, bs, _ in b:
            for key, k in kinds.items():
                if k[0] == "undef":
                    continue
                a1 = cell(bs, key)
                if k[0] == "perm":
                    h = cell(s, key)
                    if not (isinstance(a1, Vec) and a1.len is h.len and perm_of(a1.el, h.el)):
                        raise LoopFail("permutation lost")
                    for l in layers(a1.el, h.el):
                        if not (bs.proves(ge(l.lo, I(0))) and bs.proves(le(l.hi, h.len))):
                            raise LoopFail("permutation outside the array")
                elif self.hv_kind(k, cell(st0, key), cell(s, key), a1, bs) != k:
                    if os.environ.get("VF_HV"):
                        print("HVX", tag, key[0][-60:], key[1], k, self.hv_kind(k, cell(st0, key), cell(s, key), a1, bs), str(cell(s, key))[:100], str(a1)[:200], flush=True)
                    raise LoopFail("modified cells do not stabilise")
        # ---- final pass
        for c in cands:
            holds(c, st0, "loop invariant on entry (%s): %s" % (where, self.hv_name(c)))
        s = header(cands)
        o, b, e = body(s, False)
        for c in cands:
            for _, bs, _ in b:
                holds(c, bs, "loop invariant preserved (%s): %s" % (where, self.hv_name(c)))
        for key, k in kinds.items():
            if k[0] == "perm":
                for _, bs, _ in b:
                    for l in layers(cell(bs, key).el, cell(s, key).el):
                        eng.oblig(bs, and_(ge(l.lo, I(0)), le(l.hi, cell(s, key).len)), "loop invariant preserved (%s): permutation of the entry contents" % where, "invariant")
        self.loops_info.append({"function": self.fns[fr.fn]["dem"][:120], "line": self.loop_line(fr.fn, loop), "kind": "havoc",
                                "invariants": len(cands)})
        return o, e

    def hv_name(self, c):
        import re
        return re.sub(r"\('L:[^']*?(\.\d+)', (\d+)\)", r"local\1", c.name)[:140]

    def hv_goal(self, c, s, i):
        V = lambda k: s.mem.get(k[0], {}).get(k[1], UNDEF)
        if any(not isinstance(V(k), (T, Vec)) for k in c.keys):
            return None
        return c.goal(s, V)

    def hv_record(self, s, g, label):
        from .prove import find_ite
        todo, ok = [(s, g)], True
        while todo:
            s, g = todo.pop()
            x = find_ite(g)
            if x is None:
                ok = self.oblig(s, g, label, "invariant") and ok
                continue
            c = x.args[0]
            d = s.decide(c)
            if d is not False:
                s2 = s.fork()
                s2.assume(c)
                if d is True or self.feasible(s2):
                    todo.append((s2, subst(g, {x: x.args[1]})))
            if d is not True:
                s3 = s.fork()
                s3.assume(not_(c))
                if d is False or self.feasible(s3):
                    todo.append((s3, subst(g, {x: x.args[2]})))
        return ok

    def hv_kind(self, k, v0, a0, a1, bs):
        """abstraction of a cell: entry value v0, header value a0, value a1 after the body"""
        und = ("undef", None)
        if v0 is UNDEF or a1 is UNDEF:
            return und
        if isinstance(v0, T) and isinstance(a1, T) and v0.sort == a1.sort:
            if v0.sort == "I":
                return k or ("int", 64)
            if v0.sort == "R":
                return k or ("real", None)
            return und
        if isinstance(v0, Vec) and isinstance(a1, Vec):
            if a0.len is a1.len and perm_of(a1.el, a0.el) and (k is None or k[0] == "perm"):
                return ("perm", None) if k is None or k[0] == "perm" else und
            if k is not None and k[0] == "perm":
                return und
            if is_list(v0) and is_list(a1) and v0.layout == a1.layout:
                if v0.layout[0] == "i64":
                    return ("ints", None)
                arr = k[1] if k else None
                for v, s in ((v0, None), (a1, bs)):
                    t = (s or a_state(bs)).fork()
                    i = t.skolem("any", "I")
                    t.assume(and_(ge(i, I(0)), lt(i, v.len)))
                    if not self.feasible(t):
                        continue
                    self.mute += 1
                    try:
                        _, ar = key_of(t, v.el, i, v.layout)
                    except Unsupported:
                        return und
                    finally:
                        self.mute -= 1
                    if ar is None or (arr is not None and not (arr[0].same(ar[0]) and arr[1] == ar[1])):
                        return und
                    arr = ar
                return ("ptrs", arr) if arr else und
        return und


def a_state(s):
    return s
