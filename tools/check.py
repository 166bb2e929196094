"""check.py PROPERTY quick|thorough      decide one property
   check.py --replay FILE               run one recorded session again"""
import collections
import json
import os
import random
import re
import sys
import time
import traceback

import common
import gen
import props
import trace
from common import EVIDENCE, ROOT, ToolError, log

KNOWN = os.path.join(ROOT, "known_findings.json")


def known_findings():
    return [k for k in json.load(open(KNOWN))["findings"] if k["status"] == "known"]


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.p = props.PROPS[prop]
        self.states = self.transitions = self.traces = self.events = self.skipped = 0
        self.kinds = collections.Counter()
        self.status = collections.Counter()
        self.work = {}
        self.models = {}
        self.samples = []
        self.violations = []
        self.known = {}
        self.other = collections.Counter()
        self.distinct = set()
        self.suspects = []
        self.forms = None
        self.chars = collections.Counter()

    def owns(self, label):
        return re.fullmatch(self.p["labels"], label) is not None

    # ---- recorded executions decided by the Conformance specification
    def sessions(self, name, sessions, runner=None):
        t0 = time.time()
        runner = runner or (lambda ss: common.run_sessions([s.driver() for s in ss]))
        steps = runner(sessions)
        keep = [(s, r) for s, r in zip(sessions, steps) if r is not None]
        self.skipped += len(sessions) - len(keep)
        pairs = []
        for s, r in keep:
            tr = trace.trace(s, r)
            if tr["ev"]:
                pairs.append((s, r, tr))
        t1 = time.time()
        for lo in range(0, len(pairs), 6000):
            self.decide(name, pairs[lo:lo + 6000])
        w = self.work.setdefault(name, {"sessions": 0, "run_s": 0.0, "decide_s": 0.0})
        w["sessions"] += len(pairs)
        w["run_s"] = round(w["run_s"] + t1 - t0, 2)
        w["decide_s"] = round(w["decide_s"] + time.time() - t1, 2)

    def decide(self, name, pairs):
        rejects, res = common.validate([t for _, _, t in pairs])
        self.states += res.distinct
        self.transitions += res.generated - res.initial
        self.traces += len(pairs)
        for s, _, t in pairs:
            char = self.forms and s.c and self.forms.char.get(str(s.c.g))
            if char:
                self.chars[char] += 1
            self.distinct.add(hash(json.dumps(s.ops, sort_keys=True)))
            for e in t["ev"]:
                self.events += 1
                self.kinds[e["k"]] += 1
                if e["st"] != "ok":
                    self.status[e["k"] + ":" + e["st"]] += 1
        for _, _, t in pairs[:1]:
            if len(self.samples) < 3:
                self.samples.append({"workload": name, "trace": shorten(t)})
        for tid, l, label in rejects:
            s, r, t = pairs[tid]
            if label == "model.input":
                raise ToolError("the generator produced a crystal the specification does not accept: " + json.dumps(t.get("c")))
            if not self.owns(label):
                self.other[label] += 1
                if self.p.get("alone") and not label.startswith("same.") and label not in (k.get("label") for k in known_findings()):
                    self.suspects.append((name, s, r, t, l, label))
                continue
            k = next((k for k in known_findings() if k["property"] == self.prop and k["label"] == label), None)
            if k:
                self.known.setdefault(label, [k, 0])[1] += 1
                continue
            self.violate(name, s, r, t, l, label)

    # ---- results rejected for other reasons: does the call alone, in a fresh process, give the same?
    def alone(self):
        todo, self.suspects = self.suspects[:40], []
        for name, s, r, t, l, label in todo:
            q = gen.Session(s.c, s.ctx)
            q.scale = getattr(s, "scale", None)
            first = max((i for i in range(l + 1) if s.evs[i]["k"] == "new"), default=0)
            for i in range(first, l + 1):
                if i == first or i == l or not s.ops[i].get("peek"):
                    q.add(s.ops[i], {k: v for k, v in s.evs[i].items() if k != "rep"})
            again = trace.trace(q, common.run_sessions([q.driver()])[0])
            if not again["ev"]:
                continue
            rejects, _ = common.validate([again])
            if label not in [x for _, _, x in rejects]:
                self.violate(name, s, r, t, l, label.split(".")[0] + ".history")

    def violate(self, name, s, r, t, l, label):
        n = len(self.violations)
        path = None
        if n < 5:
            path = os.path.join(EVIDENCE, "replay", f"{self.prop}-{n}.json")
            common.write_json(path, {"property": self.prop, "workload": name, "seed": self.seed, "tier": self.tier,
                                     "label": label, "event": l, "what": props.LABELS.get(label, label),
                                     "session": {"ops": s.ops, "events": s.evs}, "steps": r, "trace": t,
                                     "runner": getattr(s, "runner", "driver"),
                                     "crystal": t.get("c"), "names": s.c.names if s.c else None,
                                     "lref": s.ctx.lref if s.ctx else None, "rt": s.ctx.rt if s.ctx else None,
                                     "scale": getattr(s, "scale", None)})
        self.violations.append((label, path))

    # ---- the specification on its own
    def model(self, module, env=None, cfg=None):
        res = common.tlc(module, env=env, cfg=cfg)
        self.states += res.distinct
        self.transitions += max(0, res.generated - res.initial)
        self.models[module if cfg is None else cfg] = {"states": res.distinct, "transitions": res.generated - res.initial,
                                                       "wall_s": round(res.wall, 1), "constants": env or {}}


def shorten(t):
    """an actual trace, long site lists cut"""
    def cut(o):
        if isinstance(o, list):
            return [cut(x) for x in (o if len(o) <= 6 else o[:5])] + (["..."] if len(o) > 6 else [])
        if isinstance(o, dict):
            return {k: cut(v) for k, v in o.items()}
        return o
    return cut(t)


def decide(prop, tier):
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    t0 = time.time()
    common.build(props.PROPS[prop].get("binary", "csdriver"))
    run = Run(prop, tier, seed)
    p = run.p
    for m in p.get("models", []):
        env = m[1] if tier == "quick" else m[2]
        if env is not None:
            run.model(m[0], env)
    forms = gen.Forms(p.get("forms", (6, 7))[tier == "thorough"]) if p.get("uses_forms", True) else None
    run.forms = forms
    for w in p["work"]:
        fn, quick, thorough = w[:3]
        runner = w[3] if len(w) > 3 else None
        name = fn.__name__.replace("<lambda>", "table_groups")
        rng = random.Random(f"{prop}:{name}:{seed}")
        size = quick if tier == "quick" else thorough
        batch = p.get("batch", 3000)
        if name == "table_groups":
            batch = 4
        while size > 0:
            run.sessions(name, fn(rng, min(size, batch), forms), runner)
            size -= batch
            run.alone()
            if run.violations:
                break
    cov = {"states": run.states, "transitions": run.transitions, "traces_validated_against_impl": run.traces,
           "samples": run.samples, "events": run.events, "distinct_sessions": len(run.distinct), "event_kinds": dict(run.kinds),
           "calls_not_returning": dict(run.status), "sessions_skipped": run.skipped, "workloads": run.work,
           "models": run.models, "reduced_forms_enumerated": len(forms.all) if forms else 0,
           "sessions_by_lattice_character": {str(k): v for k, v in sorted(run.chars.items())},
           "known_findings_seen": {k: v[1] for k, v in run.known.items()}}
    common.write_json(os.path.join(EVIDENCE, prop + ".json"), {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
        "wall_s": round(time.time() - t0, 1), "assumptions": props.ASSUMPTIONS,
        "violations": len(run.violations)})
    for label, (k, n) in sorted(run.known.items()):
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if run.other:
        log("rejected, but belonging to other properties:", dict(run.other))
    if run.skipped and not run.violations:
        raise ToolError(f"{run.skipped} sessions were not executed")
    for label, path in run.violations[:5]:
        print(f"VIOLATION property={prop} replay={path}")
        log(f"  {label}: {props.LABELS.get(label, label)}")
    if run.violations:
        log(f"{len(run.violations)} disagreements: {dict(collections.Counter(x for x, _ in run.violations))}")
        return 1
    log(f"{prop} held: {run.traces} traces, {run.events} events, {run.states} states, {time.time() - t0:.1f} s")
    return 0


def replay(path):
    d = json.load(open(path))
    common.build(props.PROPS[d["property"]].get("binary", "csdriver"))
    s = gen.Session()
    s.ops, s.evs = d["session"]["ops"], d["session"]["events"]
    if d["crystal"]:
        s.c = gen.Crystal(d["crystal"]["g"], d["crystal"]["n"], d["crystal"]["sites"], d["names"])
        s.ctx = gen.Ctx(d["lref"], d["crystal"]["n"], d["names"], d["rt"])
        s.scale = d["scale"]
    runner = props.RUNNERS[d["runner"]]
    steps = runner([s])[0]
    t = trace.trace(s, steps)
    rejects, _ = common.validate([t])
    print(json.dumps({"crystal": d["crystal"], "calls": s.ops, "returned": steps}, indent=1))
    for _, l, label in rejects:
        print(f"event {l + 1} ({t['ev'][l]['k']}): {label}: {props.LABELS.get(label, label)}")
    mine = [x for x in rejects if re.fullmatch(props.PROPS[d["property"]]["labels"], x[2])]
    if mine:
        print(f"VIOLATION property={d['property']} replay={path}")
    return 1 if mine else 0


def main():
    try:
        if sys.argv[1] == "--replay":
            return replay(sys.argv[2])
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        return decide(sys.argv[1], tier)
    except ToolError as e:
        log("CHECK ERROR:", e)
    except Exception:
        log("CHECK ERROR:", traceback.format_exc())
    return 2


if __name__ == "__main__":
    sys.exit(main())
