"""Numeric evaluation of terms, used to look for counterexamples to a failed
obligation (never to prove one)."""
import math, random
from .term import *
from . import solver
import z3


class NoEval(Exception):
    pass


INTERP = {}       # name -> python function (spec functions)


class Model:
    def __init__(self, rng, ints=None):
        self.rng = rng
        self.vals = dict(ints or {})
        self.memo = {}

    def leaf(self, t):
        if t in self.vals:
            return self.vals[t]
        if t.op == "var" and t.args[0] == "pi":
            return math.pi
        if t.op == "var" and t.args[0] == "inf":
            return 1e200
        if t.op == "var" and t.args[0] == "nan":
            raise NoEval()
        key = t
        if t.op == "app":
            key = (t.args[0],) + tuple(self.ev(a) for a in t.args[1:])
            if key in self.vals:
                return self.vals[key]
        if t.sort == "R":
            v = self.rng.choice([self.rng.uniform(0.1, 2.5), self.rng.uniform(-1, 1), self.rng.uniform(0.1, 0.9)])
        elif t.sort == "I":
            v = self.rng.randint(0, 6)
        else:
            v = self.rng.random() < .5
        self.vals[key] = v
        return v

    def ev(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._ev(t)
            self.memo[t] = r
        return r

    def _ev(self, t):
        op = t.op
        if op == "const":
            v = t.args[0]
            return v if t.sort == "I" else float(v)
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "var":
            return self.leaf(t)
        if op == "poly":
            s = 0
            for m, c in t.args:
                p = c if t.sort == "I" else float(c)
                for a, e in m:
                    v = self.ev(a)
                    if e < 0 and v == 0:
                        raise NoEval()
                    p = p * v ** e
                s = s + p
            return s
        if op == "mul":
            return self.ev(t.args[0]) * self.ev(t.args[1])
        if op == "recip":
            v = self.ev(t.args[0])
            if v == 0:
                raise NoEval()
            return 1.0 / v
        if op == "i2r":
            return float(self.ev(t.args[0]))
        if op == "idiv":
            b = self.ev(t.args[1])
            if b == 0:
                raise NoEval()
            return self.ev(t.args[0]) // b
        if op == "ite":
            return self.ev(t.args[1]) if self.ev(t.args[0]) else self.ev(t.args[2])
        if op == "not":
            return not self.ev(t.args[0])
        if op == "and":
            return all(self.ev(a) for a in t.args)
        if op in ("le0", "lt0", "eq0"):
            v = self.ev(t.args[0])
            if t.args[0].sort == "R":
                if op == "eq0":
                    return abs(v) < 1e-9 * (1 + self.mag(t.args[0]))
                if op == "lt0":
                    return v < -1e-12
                return v <= 1e-12
            return {"le0": v <= 0, "lt0": v < 0, "eq0": v == 0}[op]
        if op == "app":
            nm = t.args[0]
            try:
                if nm in INTERP:
                    return INTERP[nm](*[self.ev(a) for a in t.args[1:]])
                if nm in ("sqrt", "cos", "sin", "log", "exp", "pow", "tan", "acos", "asin", "atan", "tanh", "floor", "ceil", "log1p", "expm1", "sinh", "cosh"):
                    return getattr(math, nm)(*[self.ev(a) for a in t.args[1:]])
                if nm == "trunc":
                    return int(self.ev(t.args[1]))
            except (ValueError, OverflowError, ZeroDivisionError):
                raise NoEval()
            if nm in ("round_to_float",):
                import struct
                return struct.unpack("f", struct.pack("f", self.ev(t.args[1])))[0]
            return self.leaf(t)
        raise NoEval()

    def mag(self, t):
        """sum of the magnitudes of the monomials (scale for comparisons)"""
        s = 0.0
        for m, c in pdict(t).items():
            p = abs(float(c))
            for a, e in m:
                v = abs(self.ev(a))
                if e < 0 and v == 0:
                    raise NoEval()
                p *= v ** e
            s += p
        return s


def int_models(facts, rng, want=24, goal=None):
    """several small models of the integer part of the facts"""
    fs = [f for f in facts if not solver.has_real(f)]
    out = []
    s = z3.Solver()
    s.set("timeout", 2000)
    s.set("random_seed", rng.randint(0, 10 ** 6))
    for f in fs:
        s.add(solver.to_z3(f))
    for a in solver.side_axioms(fs):
        s.add(a)
    ivars = set()
    for f in fs:
        for a in atoms(f):
            if a.op == "var" and a.sort == "I":
                ivars.add(a)
    ivars = sorted(ivars, key=lambda t: t.id)
    rels = []
    for f in fs:
        for x in (f.args if f.op == "and" else (f,)):
            if x.op == "le0" and x.args[0].sort == "I":
                rels.append(x.args[0])
    if goal is not None and not solver.has_real(goal):
        s.push()
        s.add(z3.Not(solver.to_z3(goal)))
        if s.check() != z3.sat:
            s.pop()
    base = s.num_scopes()
    for k in range(want):
        s.push()
        if rels and k % 2:
            # corner: one inequality tight
            s.push()
            s.add(solver.to_z3(rng.choice(rels)) == 0)
            if s.check() != z3.sat:
                s.pop()
        for v in ivars:
            if rng.random() < .7:
                s.add(solver.to_z3(v) <= rng.choice([2, 3, 5, 9, 20, 60]))
        if s.check() != z3.sat:
            s.pop()
            if s.check() != z3.sat:
                break
            s.push()
            s.check()
        m = s.model()
        vals = {}
        for v in ivars:
            x = m.eval(solver.to_z3(v), model_completion=True)
            vals[v] = x.as_long()
        iapps = set()
        for f in fs:
            for a in atoms(f):
                if a.op == "app" and a.sort == "I":
                    iapps.add(a)
        av = {}
        for a in sorted(iapps, key=lambda t: t.id):
            try:
                av[a] = m.eval(solver.to_z3(a), model_completion=True).as_long()
            except Exception:
                pass
        out.append((vals, av))
        while s.num_scopes() > base:
            s.pop()
    return out


def tainted(ts):
    """mentions a value the loop summariser or a havoc left uninterpreted"""
    for t in ts:
        for x in subterms(t):
            if x.op in ("app", "var"):
                nm = x.args[0]
                if nm.startswith(("loop", "nk", "havoc", "it#", "any#")):
                    return True
    return False


def refute(facts, goal, rng, tries=400):
    """('refuted', assignment) if facts hold numerically and goal fails somewhere;
    ('holds', n) if it held at n sampled points; ('none', 0) if nothing could be sampled."""
    ms = int_models(facts, rng, goal=goal) or [({}, {})]
    held = 0
    bad = 0
    for k in range(tries):
        vals, av = ms[k % len(ms)]
        m = Model(rng, vals)
        try:
            for a, v in av.items():
                m.vals[(a.args[0],) + tuple(m.ev(x) for x in a.args[1:])] = v
            if not all(m.ev(f) for f in facts):
                bad += 1
                continue
            if not m.ev(goal):
                desc = {show(a): m.ev(a) for a in atoms(goal) | frozenset().union(*[atoms(f) for f in facts]) if a.op == "var" or (a.op == "app" and a.args[0] not in INTERP)}
                return "refuted", {k: (v if not isinstance(v, Fraction) else float(v)) for k, v in list(desc.items())[:40]}
            held += 1
            if held >= 60:
                break
        except (NoEval, OverflowError, ZeroDivisionError, TypeError, ValueError):
            continue
    return ("holds", held) if held else ("none", 0)
