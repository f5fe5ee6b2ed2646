#!/usr/bin/env python3
"""check.py <property> <quick|thorough>      run one check
   check.py replay <file>                    run a recorded violation again

Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check could not do its work."""
import collections
import copy
import json
import os
import re
import shutil
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *  # noqa
import plan

KNOWN = os.path.join(ROOT, "known_findings.txt")


def known_findings():
    """[(property, key, text)] of findings that are recorded and not repaired"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


class Ctx:
    def __init__(self, pid, tier, seed, work, exe):
        self.pid, self.tier, self.seed, self.work, self.exe = pid, tier, seed, work, exe
        self.thorough = tier == "thorough"
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.stages = [], [], []
        self.known_seen = {}
        self.canaries = 0

    # -- model checking of the specification itself
    def design(self, module, cfg=None, expect_error=None, env=None, timeout=800):
        r = design(self.work, module, cfg or module, expect_error, timeout, env)
        self.states += r.distinct
        self.transitions += r.generated
        self.stages.append({"stage": f"TLC {cfg or module}", "states": r.distinct, "transitions": r.generated,
                            "expected_violation": expect_error} if expect_error else
                           {"stage": f"TLC {cfg or module}", "states": r.distinct, "transitions": r.generated})

    # -- scenarios from the specification, replayed and validated
    def simulated(self, gen, num, depth, env=None, engine="del", trace="TraceDel", seed=0, cfg=None, **kw):
        sc = simulate(self.work, gen, num, depth, self.seed * 17 + seed + 1, env=env, cfg=cfg)
        self.conform(f"simulate {gen} {env or ''}", sc, engine, trace, **kw)

    def enumerated(self, gen, cfg=None, env=None, engine="del", trace="TraceDel", sample=None, timeout=800):
        sc, r = enumerate_(self.work, gen, cfg, env=env, timeout=timeout)
        self.states += r.distinct
        self.transitions += r.generated
        n = len(sc)
        if sample and n > sample:
            import random
            sc = random.Random(self.seed).sample(sc, sample)
        self.conform(f"enumerate {cfg or gen} ({n} scenarios)", sc, engine, trace)

    def finding(self, key, scens, engine, trace, hang=120):
        """Scenarios that exercise a recorded finding and nothing else."""
        self.conform(f"finding {key}", scens, engine, trace, hang=hang)

    def conform(self, name, scens, engine, trace, hang=120, cfg=None, pristine=False):
        traces, crashes = replay(self.work, self.exe, engine, scens, self.seed, hang=hang, pristine=pristine)
        self.pristine = pristine
        by_scen = {s["id"]: s for s in scens}
        for c in crashes:
            self.violation(engine, trace, c["scenario"], {"crash": c["how"], "stderr": c["stderr"]})
        plain = len(traces)
        base = max(by_scen, default=0) + 1
        canaries = plan.canaries(engine, traces, self.pid, base)
        mism, st, tr = validate(self.work, trace, traces + canaries, cfg=cfg)
        flagged = {i for i, _, _ in mism}
        missed = [c for c in canaries if c["id"] not in flagged]
        by_trace = {t["id"]: t for t in traces}
        for i, l, props in mism:
            if i in by_trace and self.pid in props:
                t = by_trace[i]
                self.violation(engine, trace, by_scen[i],
                               {"event_index": l, "event": t["ev"][l - 1], "contradicts": props, "trace": t})
        if missed and not self.violations:
            raise ToolError(f"{trace}: a deliberately corrupted trace was accepted: {json.dumps(missed[0])[:2000]}")
        self.canaries += len(canaries)
        self.states += st
        self.transitions += tr
        self.traces += plain
        events = collections.Counter()
        for t in traces:
            for e in t["ev"]:
                r = e.get("res")
                events[e["e"] + (":" + r if isinstance(r, str) and len(r) <= 6 else "")] += 1
        self.stages.append({"stage": name, "engine": engine, "traces": plain, "trace_states": st,
                            "events": dict(events.most_common(40)),
                            "corrupted_traces_rejected": len(canaries) - len(missed)})
        if traces and len(self.samples) < 3:
            t = traces[len(traces) // 2]
            text = json.dumps(t)
            self.samples.append(t if len(text) < 4000 else {"id": t["id"], "excerpt": text[:4000]})

    def violation(self, engine, trace, scen, detail):
        for prop, key, text in known_findings():
            if prop == self.pid and scen.get("finding") == key:
                self.known_seen[key] = text
                return
        self.violations.append({"property": self.pid, "engine": engine, "trace_module": trace, "seed": self.seed,
                                "scenario": scen, "pristine": self.pristine, "detail": detail})


def write_replays(ctx):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    paths = []
    for old in os.listdir(d):
        if old.startswith(ctx.pid + "-"):
            os.unlink(os.path.join(d, old))
    for i, v in enumerate(ctx.violations[:5]):
        p = os.path.join(d, f"{ctx.pid}-{i}.json")
        with open(p, "w") as f:
            json.dump(v, f, indent=1)
        paths.append(p)
    return paths


def run(pid, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    try:
        ctx = Ctx(pid, tier, seed, work, build())
        for stage in plan.PLAN[pid]:
            stage(ctx)
            if ctx.violations and not ctx.thorough:
                break
    finally:
        shutil.rmtree(work, ignore_errors=True)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {"states": ctx.states, "transitions": ctx.transitions,
                     "traces_validated_against_impl": ctx.traces, "samples": ctx.samples,
                     "stages": ctx.stages, "corrupted_traces_rejected": ctx.canaries,
                     "exhaustive": False},
        "assumptions": plan.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 1), "violations": len(ctx.violations),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for key, text in sorted(ctx.known_seen.items()):
        print(f"KNOWN-FINDING: property={pid} {text}")
    if ctx.violations:
        for p in write_replays(ctx):
            print(f"VIOLATION property={pid} replay={p}")
        v = ctx.violations[0]
        log(f"{len(ctx.violations)} violations; first: {json.dumps({k: x for k, x in v['detail'].items() if k != 'trace'})[:1500]}")
        return 1
    print(f"OK property={pid} tier={tier} states={ctx.states} transitions={ctx.transitions} traces={ctx.traces} "
          f"wall={time.time() - t0:.0f}s")
    return 0


def rerun(path):
    v = json.load(open(path))
    work = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        ctx = Ctx(v["property"], "quick", v["seed"], work, build())
        ctx.conform("replay", [v["scenario"]], v["engine"], v["trace_module"], pristine=v.get("pristine", False))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for x in ctx.violations:
        print(f"VIOLATION property={v['property']} replay={path}")
        print(json.dumps({k: y for k, y in x["detail"].items() if k != "trace"})[:3000])
    return 1 if ctx.violations else 0


if __name__ == "__main__":
    try:
        sys.exit(rerun(sys.argv[2]) if sys.argv[1] == "replay" else run(sys.argv[1], sys.argv[2]))
    except ToolError as e:
        log(f"check could not run: {e}")
        sys.exit(2)
