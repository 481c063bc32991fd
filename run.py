#!/usr/bin/env python3
"""run.py <PROPERTY> [--replay FILE]   decide one property on /repo's current tree.

Exit 0: held on everything explored.  Exit 1 + 'VIOLATION property=.. replay=..': broken.
Exit 2: the check itself could not be carried out (for instance /repo does not compile).
Tier and seed come from VERIF_TIER (quick|thorough) and VERIF_SEED.
"""
import glob, json, os, subprocess, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vlib import build, registry

def known_findings(prop):
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                out.append(l[len("finding: "):])
    return out

class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.stats = []          # per stage dicts
        self.violation = None    # (stage, replay, message)
        self.replay_in = None
        self.rdir = os.path.join(HERE, "replay"); os.makedirs(self.rdir, exist_ok=True)

    def run_harness(self, st):
        name = os.path.splitext(os.path.basename(st["src"]))[0]
        out = os.path.join(build.BUILD, "out-%s-%s.json" % (self.prop, name))
        rep = os.path.join(self.rdir, "%s-%s.txt" % (self.prop, name))
        for p in (out, rep):
            if os.path.exists(p): os.unlink(p)
        bld = st.get("build", "asan")
        build.ensure(bld, st.get("targets") or st["libs"])
        exe = build.harness(st["src"], st["libs"], build=bld, extra_src=st.get("extra_src", ()),
                            defs=st.get("defs", ()), incs=st.get("incs", ()), ldflags=st.get("ldflags", ()), pre=st.get("pre", ()))
        for pl in st.get("plugins", ()): build.plugin(pl, bld)
        env = dict(os.environ, VERIF_SEED=str(self.seed), VERIF_TIER=self.tier)
        env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=66"
        env["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=66"
        env["VERIF_RELDIR"] = os.path.join(build.BUILD, bld)
        env["VERIF_DIR"] = HERE
        cmd = [exe, "--out", out, "--replay-out", rep]
        cap = st.get("cap", {}).get(self.tier)
        if cap: cmd += ["--cap", str(cap)]
        if self.replay_in: cmd = [exe, "--replay", self.replay_in]
        r = subprocess.run(cmd, env=env)
        if self.replay_in: return r.returncode
        if r.returncode not in (0, 1) or not os.path.exists(out):
            raise RuntimeError("harness %s ended with %d" % (name, r.returncode))
        s = json.load(open(out)); s["stage"] = name
        self.stats.append(s)
        if r.returncode == 1:
            self.violation = (name, rep, s.get("violation", ""))
        return r.returncode

def main():
    prop = sys.argv[1]
    ctx = Ctx(prop)
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        ctx.replay_in = sys.argv[3]
        head = open(ctx.replay_in).read(400)
        rc = 0
        for st in registry.CHECKS[prop]["stages"]:
            if "src" in st:
                n = os.path.splitext(os.path.basename(st["src"]))[0]
                if n in os.path.basename(ctx.replay_in): rc = ctx.run_harness(st)
            elif head.startswith("stage: " + st["name"] + "\n"):
                rc = st["fn"](ctx)
        return rc
    t0 = time.time()
    try:
        for st in registry.CHECKS[prop]["stages"]:
            rc = ctx.run_harness(st) if "src" in st else st["fn"](ctx)
            if ctx.violation: break
    except build.BuildError as e:
        print("CHECK-ERROR property=%s build failed\n%s" % (prop, e), file=sys.stderr); return 2
    except Exception:
        traceback.print_exc(); return 2
    ev = sum(s["evaluations"] for s in ctx.stats); dn = sum(s["distinct_nontrivial"] for s in ctx.stats)
    known = known_findings(prop)
    cov = {"evaluations": ev, "distinct_nontrivial": dn,
           "rule": " || ".join("%s: %s" % (s["stage"], s["rule"]) for s in ctx.stats),
           "samples": [x for s in ctx.stats for x in s["samples"][:6]] or ["(none)"],
           "discarded": sum(s.get("discarded", 0) for s in ctx.stats),
           "unreproduced_failures": sum(s.get("unreproduced", 0) for s in ctx.stats),
           "time_capped": any(s.get("time_capped") for s in ctx.stats),
           "labels": {s["stage"]: s.get("labels", {}) for s in ctx.stats},
           "suites": {s["stage"]: s.get("suites", {}) for s in ctx.stats}}
    e = {"property": prop, "tier": ctx.tier, "seed": ctx.seed, "level": "exploration", "coverage": cov,
         "assumptions": registry.CHECKS[prop].get("assumptions", []) + known,
         "wall_s": round(time.time() - t0, 2), "violations": 1 if ctx.violation else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(e, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for k in known: print("KNOWN-FINDING: " + k)
    if ctx.violation:
        print("stage %s: %s" % (ctx.violation[0], ctx.violation[2][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, ctx.violation[1])); return 1
    print("OK property=%s tier=%s seed=%d cases=%d distinct_nontrivial=%d wall=%.1fs" % (prop, ctx.tier, ctx.seed, ev, dn, time.time() - t0))
    return 0

if __name__ == "__main__":
    sys.exit(main())
