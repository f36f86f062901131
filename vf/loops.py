import os
"""Loop summarisation: inferred closed forms / array write families, then verified."""
from .term import *
from . import sym
from .sym import *
from .sym import _ratio
from .solver import entails


def leaves(v):
    if isinstance(v, T):
        return [v] if v.sort in ("I", "R", "B") else []
    if isinstance(v, Ptr):
        return [p[0] for p in v.path if isinstance(p, tuple)]
    if isinstance(v, Vec):
        return [v.len]
    return []


def with_leaves(v, ls):
    if isinstance(v, T):
        return ls[0]
    if isinstance(v, Ptr):
        it = iter(ls)
        return Ptr(v.root, tuple((next(it), p[1]) if isinstance(p, tuple) else p for p in v.path))
    if isinstance(v, Vec):
        return Vec(ls[0], v.el, v.esize, v.layout)
    return v


def same_cell(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.same(b)
    if isinstance(a, Fn) and isinstance(b, Fn):
        return a.name == b.name
    if isinstance(a, tuple) and isinstance(b, tuple):
        return a == b
    if isinstance(a, Vec) and isinstance(b, Vec):
        return a.len is b.len and a.el is b.el
    return False


def same_shape(a, b):
    if isinstance(a, T) and isinstance(b, T):
        return a.sort == b.sort
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.root != b.root or len(a.path) != len(b.path):
            return False
        return all((isinstance(p, tuple) and isinstance(q, tuple) and p[1] == q[1]) or
                   (not isinstance(p, tuple) and p == q) for p, q in zip(a.path, b.path))
    if isinstance(a, Vec) and isinstance(b, Vec):
        return True
    return False


def unlayer(el, base):
    """writes performed on top of `base`, oldest first"""
    out = []
    while el is not base:
        if type(el) is type(base) and ekey(el) == ekey(base):
            break
        if isinstance(el, EStore):
            out.append(("st", el.idx, el.cells))
            el = el.prev
        elif isinstance(el, EFam):
            out.append(("fam", el.fam, el.K))
            el = el.prev
        elif isinstance(el, ECat):
            out.append(("seg", el.n, el.other, el.ostart, el.cnt))
            el = el.prev
        else:
            return None
    out.reverse()
    return out


def wkey(w):
    """structural key for comparing writes"""
    if w[0] == "st":
        return ("st", w[1], tuple(sorted((o, vkey(v)) for o, v in w[2].items())))
    if w[0] == "fam":
        return ("fam", famkey(w[1]), w[2])
    return ("seg", w[1], ekey(w[2]), w[3], w[4])


def vkey(v):
    if isinstance(v, T):
        return v.id
    if isinstance(v, Vec):
        return ("v", v.len.id, ekey(v.el))
    if isinstance(v, Ptr):
        return ("p", v.root, v.path)
    return repr(v)


def famkey(f):
    return (f.j.id, tuple((g.id, tuple(wkey(w) for w in ws)) for g, fs, ws in f.paths))


def ekey(e):
    if isinstance(e, EStore):
        return ("S", ekey(e.prev), e.idx.id, tuple(sorted((o, vkey(v)) for o, v in e.cells.items())))
    if isinstance(e, EFam):
        return ("F", ekey(e.prev), famkey(e.fam), e.K.id)
    if isinstance(e, ECat):
        return ("C", ekey(e.prev), e.n.id, ekey(e.other), e.ostart.id, e.cnt.id)
    if isinstance(e, ESlice):
        return ("L", ekey(e.base), e.start.id)
    if isinstance(e, EFun):
        return ("U", e.name, tuple(a.id for a in e.args))
    if isinstance(e, EHole):
        return ("H", e.name, tuple(a.id for a in e.ctrs))
    if isinstance(e, EVal):
        return ("V", tuple(sorted((o, vkey(v)) for o, v in e.cells.items())))
    if isinstance(e, ESpec):
        return ("P", e.name, tuple(vkey(a) for a in e.args))
    if isinstance(e, EIte):
        return ("I", e.c.id, ekey(e.a), ekey(e.b))
    if isinstance(e, EZero):
        return ("0",)
    if isinstance(e, EUninit):
        return ("u",)
    return ("o", id(e))


class LoopMixin:
    def trial(self):
        return len(self.obligations)

    def rollback(self, n):
        for o in self.obligations[n:]:
            for k in [k for k, v in self.obset.items() if v is o]:
                del self.obset[k]
        del self.obligations[n:]

    # ------------------------------------------------------------------ entry
    def do_loop(self, st, fr, loop, prev):
        mark = self.trial()
        key = (fr.fn, loop.header)
        skipped = key in self.nounroll
        if not skipped:
            try:
                return self.unroll(st.fork(), fr.fork(), loop, prev)
            except NeedHavoc:
                self.rollback(mark)
                raise
            except LoopFail as e:
                self.rollback(mark)
                if str(e) == "undecided exits":
                    self.nounroll.add(key)
        try:
            return self.summarise(st, fr, loop, prev)
        except NeedHavoc:
            self.rollback(mark)
            try:
                return self.havoc_loop(st, fr, loop, prev)
            except LoopFail as e:
                raise Unsupported("loop in %s: %s" % (self.fns[fr.fn]["dem"][:120], e))
        except LoopFail as e:
            if skipped:
                self.rollback(mark)
                self.nounroll.discard(key)
                return self.do_loop(st, fr, loop, prev)
            raise Unsupported("loop in %s: %s" % (self.fns[fr.fn]["dem"][:120], e))

    def unroll(self, st, fr, loop, prev):
        entry, blks, loops = self.blocks(fr.fn)
        outs, exits = [], []
        states = [(prev, st, fr)]
        forks = branched = 0
        for it in range(self.MAXUNROLL + 1):
            nxt = []
            for p, s, f in states:
                # is the header's decision determined?
                t = self.mute
                self.mute += 1
                try:
                    items = self.run_block(s.fork(), f.fork(), blks[loop.header], p)
                finally:
                    self.mute = t
                succ = set(x[0] for x in items if not isinstance(x, Outcome))
                hterm = blks[loop.header]["ins"][-1]
                # a decided exit test in the header itself: unroll
                hop = 4 if hterm["op"] == "br" and len(set(hterm["succ"])) > 1 and any(t not in loop.blocks for t in hterm["succ"]) else 0
                pv = loop.header
                while len(succ) == 1 and hop < 4 and list(succ)[0] in loop.blocks and loop.header not in succ and list(succ)[0] not in loops:
                    # the exit test may sit behind calls made in the header
                    bid = list(succ)[0]
                    term = blks[bid]["ins"][-1]
                    if term["op"] not in ("br", "invoke"):
                        break
                    if term["op"] == "br" and all(t in loop.blocks for t in term["succ"]):
                        break
                    self.mute += 1
                    try:
                        items = [y for x in items if not isinstance(x, Outcome) for y in self.run_block(x[1].fork(), x[2].fork(), blks[bid], pv)]
                        pv = bid
                    finally:
                        self.mute -= 1
                    succ = set(x[0] for x in items if not isinstance(x, Outcome))
                    hop += 1
                    if term["op"] == "br":
                        break
                if len(succ) > 1 and any(b not in loop.blocks for b in succ):
                    raise LoopFail("undecided")
                o, b, e = self.run_region(s, f, loop.header, p, loop.header, loop.blocks)
                if b and e:
                    forks += 1
                    if forks > 3:
                        # an exit that stays undecided (a convergence test): summarise instead
                        raise LoopFail("undecided exits")
                if len(b) > 1:
                    branched += 1
                    if branched > 4:
                        raise LoopFail("undecided exits")
                outs += o
                exits += e
                nxt += b
            states = nxt
            if not states:
                return outs, exits
            if len(states) + len(exits) + len(outs) > 64:
                raise LoopFail("too many states")
        raise LoopFail("not decided within %d iterations" % self.MAXUNROLL)

    # ------------------------------------------------------------------ summary
    def summarise(self, st0, fr, loop, prev):
        st0 = st0
        K = var(st0.fresh_name("k"), "I")
        tag = st0.fresh_name("loop")
        J = var(K.args[0] + "'", "I")
        octrs = st0.ctrs
        Km1 = sub(K, I(1))
        Kp1 = add(K, I(1))
        base = st0.fork()
        base.ctrs = octrs + (K,)
        base.pc = ()
        base.assume(ge(K, I(0)))
        mods = {}          # (root, off) -> {"v0", "kind", "forms": [...], "el": Elems or None}
        opaque = lambda key, i, sort: app("%s.%s.%s.%d" % (tag, key[0], key[1], i), octrs + (K,), sort)

        def build(extra):
            s = base.fork()
            hv = {}
            for key, m in mods.items():
                root, off = key
                cells = dict(s.mem[root])
                s.mem[root] = cells
                if m["kind"] == "undef":
                    cells.pop(off, None)
                    cells[off] = UNDEF
                    hv[key] = UNDEF
                    continue
                v = with_leaves(m["v0"], m["forms"])
                if isinstance(v, Vec):
                    v = Vec(v.len, m["el"], v.esize, v.layout)
                cells[off] = v
                hv[key] = v
            for f in extra:
                s.assume(f)
            return s, hv

        def run(extra, mute):
            s, hv = build(extra)
            nf = len(s.facts)
            saved = self.mute
            if mute:
                self.mute += 1
                TENT[0] += 1
            try:
                o, b, e = self.run_region(s.fork(), fr.fork(), loop.header, prev, loop.header, loop.blocks)
            finally:
                self.mute = saved
                if mute:
                    TENT[0] -= 1
            return s, hv, o, b, e

        def pathinfo(s, bs):
            """(guard, facts) of a back state relative to header state s"""
            hs = set(s.facts)
            pcs = [c for c in bs.pc]
            pset = set()
            for c in pcs:
                pset.add(c)
                if c.op == "and":
                    pset.update(c.args)
            facts = [f for f in bs.facts if f not in hs and f not in pset and f not in self.derived]
            return (and_(*pcs) if pcs else TRUE), facts

        roots0 = list(st0.mem.keys())
        # ---- phase A: modified cells
        for rnd in range(12):
            tent = []
            for key, m in mods.items():
                if m["kind"] == "undef":
                    continue
                for f in m["forms"]:
                    if f.sort == "I":
                        tent += [ge(f, I(1)), le(f, I(1 << 30))]
            s, hv, o, b, e = run(tent, True)
            new = False
            for _, bs, bf in b:
                for root in roots0:
                    if root not in bs.mem:
                        continue
                    c0, c1 = s.mem.get(root), bs.mem[root]
                    if c0 is c1:
                        continue
                    for off in set(c0) | set(c1):
                        if (root, off) in mods:
                            continue
                        a0, a1 = c0.get(off, UNDEF), c1.get(off, UNDEF)
                        if same_cell(a0, a1):
                            continue
                        new = True
                        v0 = st0.mem[root].get(off, UNDEF)
                        if off == "zero":
                            raise LoopFail("memset in loop")
                        if v0 is UNDEF:
                            # may be covered by a memset range
                            v0 = UNDEF
                            if any(p <= off < q for p, q in st0.mem[root].get("zero", ())) and isinstance(a1, T):
                                v0 = const(0, a1.sort) if a1.sort in "IR" else UNDEF
                        if v0 is UNDEF or a1 is UNDEF or not same_shape(v0, a1):
                            mods[(root, off)] = {"v0": v0, "kind": "undef", "forms": [], "el": None}
                        else:
                            forms = [opaque((root, off), i, l.sort) for i, l in enumerate(leaves(v0))]
                            el = EHole("%s.%s.%s.el" % (tag, root, off), octrs + (K,)) if isinstance(v0, Vec) else None
                            mods[(root, off)] = {"v0": v0, "kind": "mod", "forms": forms, "el": el, "open": [True] * len(forms),
                                                 "cand": [None] * len(forms)}
            if not new:
                break
        else:
            raise LoopFail("modified cells do not stabilise")
        if not b:
            # body never returns to the header on any feasible path
            s, hv, o, b, e = run([eq(K, I(0))], False)
            if not b:
                ex = []
                for bid, p, s_, f_ in e:
                    s2, f2 = self.closeloop(s_, f_, st0, K, I(0), s, len(e) > 1)
                    ex.append((bid, p, s2, f2))
                o2 = []
                for oc in o:
                    s2, _ = self.closeloop(oc.st, None, st0, K, I(0), s, True)
                    o2.append(Outcome(s2, oc.kind, vsubst(oc.val, {K: I(0)}, {}) if isinstance(oc.val, (T, Ptr, Vec)) else oc.val))
                return o2, ex
            raise LoopFail("back edge appears")

        def bad_dep(t):
            for a in atoms(t):
                if a is K:
                    return True
                if a.op == "app" and K in a.args[1:]:
                    return True
            return False

        # ---- phase B: closed forms
        rng = []

        def closed_pass(s, hv, b):
            ch = False
            for key, m in mods.items():
                if m["kind"] == "undef":
                    continue
                root, off = key
                vals = [bs.mem[root].get(off, UNDEF) for _, bs, _ in b]
                if any(v is UNDEF or not same_shape(m["v0"], v) for v in vals):
                    m["kind"] = "undef"
                    ch = True
                    continue
                l0 = leaves(m["v0"])
                for i, h in enumerate(m["forms"]):
                    if not m["open"][i]:
                        continue
                    if h.sort == "B":
                        continue
                    d = None
                    ok = True
                    for v in vals:
                        dd = sub(leaves(v)[i], h)
                        if d is None:
                            d = dd
                        elif d is not dd:
                            ok = False
                    if ok and not bad_dep(d):
                        kk = K if h.sort == "I" else i2r(K)
                        m["forms"][i] = add(l0[i], mul(d, kk))
                        m["open"][i] = False
                        ch = True
                        if isinstance(m["v0"], T) and h.sort == "I" and d.op == "const" and d.args[0] < 0:
                            # counted down: not below zero at the header
                            x = ge(m["forms"][i], I(0))
                            if entails(st0.facts, subst(x, {K: I(0)}), 2000):
                                rng.append(x)
            return ch

        closed_pass(s, hv, b)

        # header facts from the previous iteration
        def hdrfacts(s, b):
            infos = []
            for _, bs, bf in b:
                g, fs = pathinfo(s, bs)
                infos.append((g, fs, bs))
            mp = {K: Km1}
            out = []
            k1 = ge(K, I(1))
            gs = [subst(g, mp, {}) for g, _, _ in infos]
            if len(gs) == 1:
                g = gs[0]
                for x in (g.args if g.op == "and" else (g,)):
                    if x is TRUE:
                        continue
                    out.append(shift_fact(x, k1))
            else:
                # what every completed iteration has in common, and one of the guards
                cj = [set(g.args) if g.op == "and" else {g} for g in gs]
                for x in sorted(set.intersection(*cj), key=lambda t: t.id):
                    if x is not TRUE:
                        out.append(shift_fact(x, k1))
                out.append(implies(k1, or_(*gs)))
            # K != B guarding every iteration, 0 <= B  ==>  K <= B at the header (induction)
            ne = None
            for g, _, _ in infos:
                c = set()
                for x in (g.args if g.op == "and" else (g,)):
                    if x.op == "not" and x.args[0].op == "eq0" and x.args[0].args[0].sort == "I":
                        l = lin(x.args[0].args[0], K)
                        if l and l[0].op == "const" and l[0].args[0] in (1, -1):
                            B = scale(l[1], -l[0].args[0])
                            if not any(a is K or (a.op == "app" and K in a.args[1:]) for a in atoms(B)):
                                c.add(B)
                ne = c if ne is None else ne & c
            for B in ne or ():
                if entails(st0.facts, ge(B, I(0)), 2000):
                    out.append(le(K, B))
            opn = False
            for key, m in mods.items():
                if m["kind"] == "undef":
                    continue
                l0 = leaves(m["v0"])
                for i, h in enumerate(m["forms"]):
                    if m["open"][i]:
                        opn = True
                        if isinstance(m["v0"], Vec) or True:
                            out.append(implies(eq(K, I(0)), eq(h, l0[i])))
                            for (g, fs, bs), g1 in zip(infos, gs):
                                v = leaves(bs.mem[key[0]].get(key[1]))[i]
                                c = and_(k1, g1) if len(gs) > 1 else k1
                                out.append(implies(c, eq(h, subst(v, mp, {}))))
            if opn:
                for (g, fs, bs), g1 in zip(infos, gs):
                    c = and_(k1, g1) if len(gs) > 1 else k1
                    for f in fs:
                        out.append(implies(c, subst(f, mp, {})))
            return out, infos

        def shift_fact(x, k1):
            """K>=1 -> x ; strengthened to x when it also holds at K=0"""
            x0 = subst(x, {K: I(0)})
            if entails(st0.facts, x0, 1500):
                return x
            return implies(k1, x)

        def families(s, hv, b, infos):
            """array write families; returns True if they are unchanged"""
            same = True
            for key, m in mods.items():
                if m["kind"] == "undef" or m["el"] is None:
                    continue
                paths = []
                for (g, fs, bs) in infos:
                    v = bs.mem[key[0]][key[1]]
                    ws = unlayer(v.el, m["el"])
                    if ws is None:
                        # contents replaced: unknown after one iteration
                        if os.environ.get("VF_DEBUG"):
                            print("REPLACED", v.el, "BASE", m["el"], getattr(m["el"],"name",None), getattr(m["el"],"ctrs",None))
                        raise LoopFail("array %s is replaced in the loop" % (key,))
                    if not ws:
                        continue
                    paths.append((g, fs, ws))
                if len(paths) > 1 and len(paths) == len(infos) and len(set(tuple(wkey(w) for w in ws) for _, _, ws in paths)) == 1:
                    # every completed iteration performs the same writes
                    fs = []
                    for g, f0, _ in paths:
                        fs += [implies(g, f) for f in f0]
                    paths = [(TRUE, fs, paths[0][2])]
                mj = {K: J}
                fam = Fam(J, [(subst(g, mj, {}), [subst(f, mj, {}) for f in fs], [wsubst(w, mj, {}) for w in ws]) for g, fs, ws in paths])
                fk = famkey(fam)
                if m.get("fk") != fk:
                    same = False
                m["fk"] = fk
                m["newfam"] = fam
            return same

        def adopt():
            for key, m in mods.items():
                if m.get("newfam") is not None and m["kind"] != "undef" and m["el"] is not None:
                    m["el"] = EFam(m["v0"].el, m["newfam"], K)

        # candidate equalities for open leaves
        def try_cands(hf):
            if not self.cands:
                return []
            info = []
            for key, m in mods.items():
                if m["kind"] == "undef":
                    continue
                for i, h in enumerate(m["forms"]):
                    if m["open"][i]:
                        info.append((key, i, h, leaves(m["v0"])[i]))
            if not info:
                return []
            axioms = []
            lists = {}
            for f in self.cands:
                for key, i, h, v0 in info:
                    for t, ax in f(self, st0, K, v0, h):
                        t0_ = subst(t, {K: I(0)})
                        probe = list(st0.facts)
                        for a in ax:
                            probe.append(subst(a, {K: I(0)}))
                        if entails(probe, eq(t0_, v0), 2000):
                            lists.setdefault((key, i), []).append((t, ax))
            choice = {k: 0 for k in lists}
            for rnd in range(16):
                if not choice:
                    return []
                save = {}
                axioms = []
                for (key, i), c in choice.items():
                    m = mods[key]
                    save[(key, i)] = m["forms"][i]
                    t, ax = lists[(key, i)][c]
                    m["forms"][i] = t
                    axioms += [a for a in ax if a not in axioms]
                extra = [f for f in hf if not any(h in atoms(f) for h in save.values())] + axioms + rng
                s, hv, o, b, e = run(extra, True)
                failed = []
                for (key, i), c in choice.items():
                    m = mods[key]
                    t, ax = lists[(key, i)][c]
                    t1 = subst(t, {K: Kp1})
                    for _, bs, _ in b:
                        v = leaves(bs.mem[key[0]].get(key[1]))[i]
                        fs = list(bs.facts) + [subst(a, {K: Kp1}) for a in axioms]
                        if not entails(fs, eq(v, t1), 4000):
                            failed.append((key, i))
                            break
                for (key, i), h in save.items():
                    mods[key]["forms"][i] = h
                if not failed:
                    for (key, i), c in choice.items():
                        m = mods[key]
                        m["forms"][i] = lists[(key, i)][c][0]
                        m["open"][i] = False
                        m["cand"][i] = True
                    return axioms
                # advance the first failing choice
                k = failed[0] if len(failed) == 1 else max(failed, key=lambda k: choice[k] + 1 < len(lists[k]))
                if choice[k] + 1 < len(lists[k]):
                    choice[k] += 1
                else:
                    del choice[k]
            return []

        axioms = []
        hf, infos = hdrfacts(s, b)
        tentK = [le(K, I(1 << 30))]
        s, hv, o, b, e = run(tentK + rng + [f for f in hf if not any(h in atoms(f) for h in self.opens(mods))], True)
        if not b:
            raise LoopFail("no back edge under tentative facts")
        closed_pass(s, hv, b)
        hf, infos = hdrfacts(s, b)
        ax = try_cands(hf)
        axioms += ax
        # ---- phase C: stabilise families, guards, header facts
        for rnd in range(8):
            s, hv, o, b, e = run(hf + axioms + rng, True)
            if not b:
                raise LoopFail("no back edge")
            ch = closed_pass(s, hv, b)
            hf2, infos = hdrfacts(s, b)
            same = families(s, hv, b, infos)
            stable = (not ch) and same and set(hf2) == set(hf)
            hf = hf2
            if not stable:
                adopt()
                if ch:
                    axioms += [a for a in try_cands(hf) if a not in axioms]
            else:
                break
        else:
            raise LoopFail("invariants do not stabilise")
        # ---- phase D: verification pass
        s, hv, o, b, e = run(hf + axioms + rng, False)
        hf3, infos = hdrfacts(s, b)
        if set(hf3) != set(hf):
            raise LoopFail("header facts changed in the verification pass")
        if not families(s, hv, b, infos):
            raise LoopFail("array families changed in the verification pass")
        nm = self.fns[fr.fn]["dem"]
        line = self.loop_line(fr.fn, loop)
        for x in rng:
            self.oblig(st0, subst(x, {K: I(0)}), "counter not negative: %s line %s" % (nm[:100], line), "invariant")
            for _, bs, _ in b:
                self.oblig(bs, subst(x, {K: Kp1}), "counter not negative: %s line %s" % (nm[:100], line), "invariant")
        for key, m in mods.items():
            if m["kind"] == "undef":
                continue
            l0 = leaves(m["v0"])
            for i, h in enumerate(m["forms"]):
                if m["open"][i]:
                    continue
                h0 = subst(h, {K: I(0)})
                st_i = st0.fork()
                for a in axioms:
                    st_i.assume(subst(a, {K: I(0)}))
                self.oblig(st_i, eq(h0, l0[i]), "loop invariant established: %s line %s" % (nm[:100], line), "invariant")
                h1 = subst(h, {K: Kp1})
                for _, bs, _ in b:
                    v = leaves(bs.mem[key[0]][key[1]])[i]
                    bs2 = bs.fork()
                    for a in axioms:
                        bs2.assume(subst(a, {K: Kp1}))
                    self.oblig(bs2, eq(v, h1), "loop invariant preserved: %s line %s" % (nm[:100], line), "invariant")
        # blocks appended by successive iterations are consecutive (so they never overlap)
        for key, m in mods.items():
            if m["kind"] == "undef" or m["el"] is None or m.get("newfam") is None:
                continue
            for (g, fs, bs) in infos:
                segs = [w for w in unlayer(bs.mem[key[0]][key[1]].el, m["el"]) or [] if w[0] == "seg"]
                if not segs:
                    continue
                if len(segs) > 1 or len(infos) > 1:
                    raise LoopFail("several blocks appended per iteration")
                w = segs[0]
                bs2 = bs.fork()
                for a in list(axioms) + list(hf):
                    bs2.assume(subst(a, {K: Kp1}))
                self.oblig(bs2, and_(ge(w[4], I(0)), eq(subst(w[1], {K: Kp1}), add(w[1], w[4]))), "appended blocks are consecutive: %s line %s" % (nm[:100], line), "invariant")
        # new roots escaping through cells
        for _, bs, _ in b:
            newroots = set(bs.mem) - set(st0.mem)
            if newroots:
                for root in roots0:
                    for off, v in bs.mem.get(root, {}).items():
                        if isinstance(v, Ptr) and v.root in newroots and (root, off) in mods and mods[(root, off)]["kind"] != "undef":
                            raise LoopFail("object allocated in the loop escapes")
        bound = None
        res_e = []
        for (bid, p, es, ef) in e:
            bnd = self.find_bound(s, es, K)
            if bnd is not None:
                bound = bnd
            res_e.append((bid, p, es, ef, bnd))
        if not self.mute:
            self.loops_info.append({"function": nm[:160], "line": line, "closed_forms": sum(1 for m in mods.values() if m["kind"] != "undef" for q in m["open"] if not q),
                                    "array_families": sum(1 for m in mods.values() if m["kind"] != "undef" and m["el"] is not None),
                                    "counter_bound": show(bound) if bound is not None else None})
        pcs = len(res_e) > 1
        exits = []
        # every completed iteration j satisfies one of the back-edge guards
        gj = or_(*[subst(g, {K: J}, {}) for g, _, _ in infos])
        mp = {K: Km1}
        res_e = self.peel(res_e, K, mods, infos)
        for (bid, p, es, ef, bnd) in res_e:
            self.last_values(es, K, mods, infos, octrs)
            es, ef = self.closeloop(es, ef, st0, K, bnd, s, pcs)
            if gj is not TRUE:
                es.quants = es.quants + ((J, self.last_k, gj),)
                if self.witness:
                    for t in self.witness:
                        es.instantiate(t)
                    if not self.feasible(es):
                        continue
            exits.append((bid, p, es, ef))
        outs = []
        for oc in o:
            s2, _ = self.closeloop(oc.st, None, st0, K, None, s, True)
            if gj is not TRUE:
                s2.quants = s2.quants + ((J, self.last_k, gj),)
            outs.append(Outcome(s2, oc.kind, vsubst(oc.val, {K: self.last_k}, {}) if isinstance(oc.val, (T, Ptr, Vec)) else oc.val))
        return outs, exits

    def last_values(self, es, K, mods, infos, octrs):
        """variables first assigned in the body: the value of the last completed iteration
        (arbitrary when there is none)"""
        mp = {K: sub(K, I(1))}
        for key, m in mods.items():
            root, off = key
            if m["kind"] != "undef" or root not in es.mem or es.mem[root].get(off, UNDEF) is not UNDEF:
                continue
            vals = [bs.mem.get(root, {}).get(off, UNDEF) for _, _, bs in infos]
            if not vals or any(not isinstance(v, T) or v.sort != vals[0].sort or v.sort not in "RI" for v in vals):
                continue
            x = app(es.fresh_name("last"), octrs + (K,), vals[0].sort)
            es.mem[root] = dict(es.mem[root])
            es.mem[root][off] = x
            known = []
            for (g, fs, bs), v in zip(infos, vals):
                c = and_(ge(K, I(1)), subst(g, mp, {}))
                known += [implies(c, f) for f in [subst(f, mp, {}) for f in fs] + [eq(x, subst(v, mp, {}))]]
            es.lazy = dict(es.lazy)
            es.lazy[x] = known

    def peel(self, exits, K, mods, infos):
        """a loop left because of a flag it set: the exit is split by what the last completed
        iteration did (its guard, its facts, the values it left behind)"""
        def flag(key, m, i):
            vs = [leaves(bs.mem[key[0]][key[1]])[i] for _, _, bs in infos]
            return all((v.op == "const" or v is m["forms"][i]) and v.sort == "I" for v in vs) and len(set(vs)) > 1
        if len(infos) < 2 or len(infos) > 4 or not any(
                m["kind"] != "undef" and m["open"][i] and flag(key, m, i)
                for key, m in mods.items() for i in range(len(m["forms"]))):
            return exits
        mp = {K: sub(K, I(1))}
        res = []
        for (bid, p, es, ef, bnd) in exits:
            e0 = es.fork()
            e0.assume(eq(K, I(0)))
            if self.feasible(e0):
                res.append((bid, p, e0, ef, I(0)))
            for g, fs, bs in infos:
                e1 = es.fork()
                for f in [ge(K, I(1)), subst(g, mp, {})] + [subst(f, mp, {}) for f in fs]:
                    e1.assume(f)
                rep = {}
                for key, m in mods.items():
                    root, off = key
                    v = bs.mem[root].get(off, UNDEF)
                    if m["kind"] == "undef":
                        if root in e1.mem and e1.mem[root].get(off, UNDEF) is UNDEF and isinstance(v, T):
                            e1.mem[root] = dict(e1.mem[root])
                            e1.mem[root][off] = subst(v, mp, {})
                        continue
                    for i, h in enumerate(m["forms"]):
                        if m["open"][i] and h.op == "app":
                            rep[h] = subst(leaves(v)[i], mp, {})
                if not self.feasible(e1):
                    continue
                for root in list(e1.mem):
                    cells = e1.mem[root]
                    nc = {o: (x if o == "zero" else vsubst(x, rep, {})) for o, x in cells.items()}
                    if any(nc[o] is not cells[o] for o in nc):
                        e1.mem[root] = nc
                res.append((bid, p, e1, ef, bnd))
        return res

    def opens(self, mods):
        return [h for m in mods.values() if m["kind"] != "undef" for h, o in zip(m["forms"], m["open"]) if o]

    def loop_line(self, fn, loop):
        entry, blks, loops = self.blocks(fn)
        for x in blks[loop.header]["ins"]:
            if x.get("line"):
                return x["line"]
        return 0

    def find_bound(self, s, es, K):
        hs = set(s.facts)
        cands = []
        for c in list(es.pc) + [f for f in es.facts]:
            for f in (c.args if c.op == "and" else (c,)):
                if f.op in ("le0", "eq0") and f.args[0].sort == "I" and K in atoms(f.args[0]):
                    l = lin(f.args[0], K)
                    if l and l[0].op == "const" and l[0].args[0] in (1, -1):
                        b = scale(l[1], -l[0].args[0])
                        if K not in atoms(b) and b not in cands:
                            cands.append(b)
                    elif l and l[0].op == "const" and l[0].args[0]:
                        pass
        for b in cands:
            if any(a.op == "app" and K in a.args[1:] for a in atoms(b)):
                continue
            if es.decide(eq(K, b)) is True:
                return b
        return None

    def closeloop(self, es, ef, st0, K, bnd, s, pcs):
        if bnd is None:
            nm = es.fresh_name("n" + K.args[0])
            bnd = app(nm, st0.ctrs, "I") if st0.ctrs else var(nm, "I")
        self.last_k = bnd
        m = {K: bnd}
        memo = {}
        es = es.fork()
        for root, cells in list(es.mem.items()):
            if st0.mem.get(root) is cells:
                continue
            o = st0.mem.get(root, {})
            nc = {}
            for off, v in cells.items():
                if off == "zero" or v is o.get(off, None):
                    nc[off] = v
                else:
                    nc[off] = vsubst(v, m, memo)
            es.mem[root] = nc
        old = set(st0.facts)
        fs = list(st0.facts)
        seen = set(fs)
        es.facts, rest = fs, [f for f in es.facts if f not in old]
        for f in rest:
            es.assume(subst(f, m, memo))
        if pcs:
            es.pc = st0.pc + tuple(x for x in (subst(c, m, memo) for c in es.pc) if x is not TRUE)
        else:
            es.pc = st0.pc
        es.ctrs = st0.ctrs
        if es.lazy:
            es.lazy = {subst(x, m, memo): [subst(f, m, memo) for f in fs] for x, fs in es.lazy.items()}
        es.quants = tuple((j, subst(n, m, memo), subst(g, m, memo)) for j, n, g in es.quants)
        if ef is not None:
            ef = ef.fork()
            for r, v in list(ef.regs.items()):
                if isinstance(v, (T, Ptr, Vec)):
                    ef.regs[r] = vsubst(v, m, memo)
                elif isinstance(v, Agg):
                    ef.regs[r] = Agg([(o, vsubst(x, m, memo)) for o, x in v.vals])
        return es, ef


from .havoc import HavocMixin, NeedHavoc


class Eng(LoopMixin, HavocMixin, Engine):
    pass
