#!/usr/bin/env python3-vt
"""Entry point of every check:  run.py <property id>.  Exit 0 held / 1 violation."""
import importlib, json, os, subprocess, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import prove, solver, numeric
from vf.prove import VERIF, REPO, scratch
from vf.term import show, TRUE, FALSE

SPECS = {"C01": "spec_prim.c01", "C02": "spec_leg.c02", "C03": "spec_prim.c03", "C04": "spec_radial.c04", "C05": "spec_radial.c05",
         "C06": "spec_sph.c06", "C07": "spec_sph.c07", "C08": "spec_sph.c08", "C09": "spec_prune.c09", "C10": "spec_s2.c10",
         "C11": "spec_s2.c11", "C12": "spec_s2.c12", "C13": "spec_fact.c13", "C14": "spec_val.c14", "C15": "spec_batch.c15",
         "C16": "spec_radial.c16", "C17": "spec_sph.c17"}

TRUSTED = [
    "clang++-18 front end (C++ -> LLVM IR at -O0, no passes) and the IR-to-JSON dumper vf/irdump",
    "the verification-condition generator vf/sym.py, vf/loops.py and the trusted library contracts vf/lib.py",
    "z3 4.x (python binding); the ring normaliser vf/term.py",
    "floating-point arithmetic is treated as real arithmetic; double literals denote the nearest named real (DESIGN.md)",
    "container sizes are at most 2^31; memory allocation succeeds; destructors have no observable effect",
]


class Native:
    """bounded search for failing inputs on the compiled code"""

    def __init__(self, ctx, name, srcs=(), flags=("-O1", "-g0"), timeout=300, args=(), libs=(), prep=None):
        self.ctx, self.name, self.prep = ctx, name, prep
        self.srcs, self.flags, self.timeout, self.args, self.libs = srcs, list(flags), timeout, list(args), list(libs)
        self.fails, self.stats, self.samples, self.error = [], {}, [], None

    def build(self):
        d = scratch()
        src = os.path.join(VERIF, "vf", "native", self.name + ".cpp")
        self.exe = os.path.join(d, "n_" + self.name)
        if self.prep:
            self.prep(d)
        self.cmd = ["g++", "-std=c++17", "-w", "-D_GLIBCXX_ASSERTIONS", "-include", os.path.join(VERIF, "vf", "stdall.hpp")] + self.flags + ["-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + os.path.join(VERIF, "vf", "native"), "-I" + d, src] + list(self.srcs) + ["-o", self.exe] + self.libs
        return subprocess.Popen(self.cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

    def run(self, proc=None):
        t = time.time()
        proc = proc or self.build()
        out, _ = proc.communicate()
        if proc.returncode:
            self.error = "native harness does not build: " + out[-2500:]
            return
        self.build_s = round(time.time() - t, 1)
        env = dict(os.environ)
        env["VF_HINTS"] = " ".join(str(int(h)) for h in self.ctx.hints)
        env["VF_RHINTS"] = " ".join(repr(float(h)) for h in self.ctx.rhints)
        env["VF_SEED"] = str(self.ctx.seed)
        env["VF_TIER"] = self.ctx.tier
        env.update(getattr(self.ctx, "native_env", {}))
        env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1"
        env["UBSAN_OPTIONS"] = "halt_on_error=1"
        t = time.time()
        try:
            r = subprocess.run([self.exe] + self.args, capture_output=True, text=True, env=env, timeout=self.timeout, errors="replace", cwd=scratch())
            out, err, rc = r.stdout, r.stderr, r.returncode
        except subprocess.TimeoutExpired as e:
            out = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
            err, rc = "", "timeout"
        self.run_s = round(time.time() - t, 1)
        case = ""
        for l in out.splitlines():
            if l.startswith("FAIL "):
                self.fails.append(l[5:])
            elif l.startswith("STAT "):
                k, v = l[5:].split(" ", 1)
                self.stats[k] = self.stats.get(k, 0) + int(v)
            elif l.startswith("SAMPLE "):
                self.samples.append(l[7:])
            elif l.startswith("CASE "):
                case = l[5:]
        if rc == "timeout":
            self.fails.append("did not terminate within %d s in: %s" % (self.timeout, case))
        elif rc != 0:
            tail = [l for l in err.splitlines() if l.strip()]
            msg = next((l for l in tail if "ERROR" in l or "ssert" in l or "runtime error" in l or "terminate" in l), tail[-1] if tail else "signal")
            self.fails.append("abnormal termination (exit %s) in: %s: %s" % (rc, case, msg[:300]))
        self.err = err[-3000:]


def known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k["property"] == pid and k.get("status") == "known"]


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        if a == "--thorough":
            tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ctx = prove.Ctx(pid, seed, tier)
    ctx.hints, ctx.rhints = [], []
    ctx.natives = []
    mod, fn = SPECS[pid].split(".")
    m = importlib.import_module("vf." + mod)
    nat_spec = getattr(m, "NATIVE", {}).get(pid)
    nat, proc = None, None
    if nat_spec:
        nat = Native(ctx, **nat_spec)
        proc = nat.build()
    err = None
    try:
        getattr(m, fn)(ctx)
    except prove.BuildError as e:
        err = "verification unit does not compile: %s" % e
        ctx.unsupported.append({"function": "all", "reason": err[:1500]})
    except Exception as e:
        err = "internal: " + traceback.format_exc()[-1500:]
        ctx.unsupported.append({"function": "all", "reason": err})
    ctx.collect()
    t_proof = time.time() - t0
    if nat:
        nat.run(proc)
        if hasattr(m, "after_native"):
            m.after_native(ctx, nat)
    ground = getattr(ctx, "ground_fails", [])
    # -------------------------------------------------- verdict
    kn = known(pid)
    viol, knownhits = [], []
    for f in (nat.fails if nat else []) + ground:
        k = next((k for k in kn if k["match"] in f), None)
        (knownhits if k else viol).append((f, k))
    kref = [r for r in ctx.refuted if not any(k.get("obligation") and k["obligation"] in r["obligation"] for k in kn)]
    failed = [o for o in ctx.obligations if o.status == "failed"]
    rc = 0
    vdir = os.path.join(VERIF, "evidence")
    os.makedirs(vdir, exist_ok=True)
    replay = os.path.join(vdir, "replay-%s.txt" % pid)
    if os.path.exists(replay):
        os.unlink(replay)
    for f, k in knownhits:
        pass
    for k in kn:
        hits = [f for f, kk in knownhits if kk is k]
        if hits:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    strict = [r for r in getattr(ctx, "strict", []) if not any(k.get("obligation") and k["obligation"] in r["obligation"] for k in kn)]
    if viol or kref or strict:
        rc = 1
        with open(replay, "w") as fh:
            fh.write("property %s\n" % pid)
            if viol:
                fh.write("\nfailing inputs on the compiled code:\n")
                for f, _ in viol[:50]:
                    fh.write("  " + f + "\n")
                if nat and not nat.error:
                    fh.write("\nreplay: %s && VF_HINTS='%s' VF_RHINTS='%s' VF_SEED=%d %s %s\n" % (" ".join(nat.cmd), " ".join(map(str, ctx.hints)), " ".join(map(repr, ctx.rhints)), seed, nat.exe, " ".join(nat.args)))
                    fh.write("\nstderr:\n%s\n" % nat.err)
            fh.write("\nfailed obligations:\n")
            for r in (kref or ctx.refuted)[:20] + ctx.unproved[:20]:
                fh.write("  [%s] %s\n    goal: %s\n    sampling: %s %s\n    path: %s\n" % (r["kind"], r["obligation"], r["goal"], r["sampling"], r["assignment"], "; ".join(r["facts"][:30])))
        tail = "" if viol else " no-failing-input-found"
        print("VIOLATION property=%s replay=%s%s" % (pid, replay, tail))
        for f, _ in viol[:5]:
            print("  failing input: " + f)
        for lab in list(dict.fromkeys([r["obligation"] for r in kref] + [r["obligation"] for r in strict]))[:5]:
            print("  failed obligation: %s" % lab)
    elif (err or (nat and nat.error)) and not (nat and not nat.error):
        print("error: " + (err or "") + " " + ((nat.error if nat else "") or ""))
        rc = 2
    if nat and nat.error and rc == 0:
        print("note: " + nat.error[:600])
    # -------------------------------------------------- evidence
    by = {}
    for o in ctx.obligations:
        k = o.backend if o.status == "proved" else "failed"
        by[k] = by.get(k, 0) + 1
    kinds = {}
    for o in ctx.obligations:
        kinds[o.kind] = kinds.get(o.kind, 0) + 1
    proved = [o for o in ctx.obligations if o.status == "proved"]
    # vacuity: the facts of a discharged postcondition must not be contradictory
    vac, vacn, seen = [], 0, {}
    for o in proved:
        if o.kind == "post" and o.backend != "syntactic":
            seen.setdefault(o.label, o)
    tvac = time.time()
    for lab, o in list(seen.items()):
        if time.time() - tvac > (20 if tier == "quick" else 60):
            break
        vacn += 1
        if solver.entails(list(o.facts), FALSE, 800):
            vac.append(lab)
    # a second solver on a sample
    x5 = {"tried": 0, "unsat": 0, "unknown": 0, "sat": 0}
    smp = [o for o in proved if o.backend == "z3"]
    ctx.rng.shuffle(smp)
    t5 = time.time()
    for o in smp[:6 if tier == "quick" else 40]:
        if time.time() - t5 > (12 if tier == "quick" else 150):
            break
        from vf.term import not_
        r = solver.cvc5_check(list(o.facts) + [not_(o.goal)], 4)
        x5["tried"] += 1
        x5[r if r in x5 else "unknown"] += 1
    cov = {
        "obligations": len(ctx.obligations) + getattr(ctx, "lean_obligations", 0) + getattr(ctx, "ground_obligations", 0),
        "discharged": len(proved) + getattr(ctx, "lean_proved", 0) + getattr(ctx, "ground_proved", 0),
        "checker_cmd": "python3-vt /verif/vf/run.py " + pid,
        "trusted_base": TRUSTED + sorted("assumed contract: " + b[:200] for b in ctx.builtins),
        "by_backend": by, "by_kind": kinds,
        "lean_lemmas": getattr(ctx, "lean_report", []),
        "ground": getattr(ctx, "ground_report", None),
        "contracts": ctx.functions,
        "functions_executed_symbolically": sorted(k[:200] for k in ctx.executed if "IntegratorXX" in k or k.startswith("vf_"))[:400],
        "callee_contracts_used": ctx.contracts_used,
        "loops": ctx.loops[:200],
        "out_of_reach": ctx.unsupported,
        "unproved": [{k: (v if k != "facts" else v[:12]) for k, v in r.items()} for r in ctx.unproved[:30]],
        "refuted": ctx.refuted[:10],
        "vacuous_postconditions": vac, "vacuity_checked": vacn,
        "cvc5_cross_check": x5,
        "solver": {k: (round(v, 2) if isinstance(v, float) else v) for k, v in solver.STAT.items()},
        "proof_s": round(t_proof, 1),
        "verification_units_sha256": {k: v["_sha"] for k, v in ctx.tus.items()},
        "samples": [{"label": o.label, "goal": show(o.goal)[:300], "backend": o.backend} for o in (smp + proved)[:5]],
    }
    if nat:
        cov["bounded_native"] = {"note": "bounded search on the compiled code; labelled bounded, not counted as proved", "built": nat.error is None,
                                 "error": nat.error, "counts": nat.stats, "samples": nat.samples[:6], "fails": nat.fails[:20], "seconds": getattr(nat, "run_s", None)}
    cov.update(getattr(ctx, "extra_coverage", {}))
    if ctx.notes:
        cov["notes"] = ctx.notes
    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(m, "LEVEL", {}).get(pid, "proof"), "coverage": cov,
          "assumptions": ctx.assumptions + ["machine floating point treated as real arithmetic in the proofs", "container sizes at most 2^31"],
          "wall_s": round(time.time() - t0, 2), "violations": len(viol) + len(kref) + len(strict)}
    with open(os.path.join(vdir, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print("%s: %d obligations, %d discharged %s, %d unproved, %d out of reach; native %s; %.1f s" % (
        pid, cov["obligations"], cov["discharged"], by, len(ctx.unproved), len(ctx.unsupported), (nat.stats if nat else None), ev["wall_s"]))
    sys.exit(rc)


if __name__ == "__main__":
    main()
