#!/usr/bin/env python3
"""Decides one property:  check.py ID  (VERIF_TIER, VERIF_SEED);  check.py --replay FILE  runs a recorded violation again.

exit 0  the property held on everything explored
exit 1  it is broken: a line VIOLATION property=ID replay=FILE for each failing world (at most five)
exit 2  the check itself failed
"""
import json, os, random, sys, time, traceback

if os.environ.get("PYTHONHASHSEED") != "0":
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, f"{VERIF}/lib")
os.environ.setdefault("TMPDIR", "/tmp")
sys.dont_write_bytecode = True
import campaigns, judge, models, replay, run, shrink          # noqa: E402

QUICK_LIMIT = 600
THOROUGH_LIMIT = 700


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.calls = 0
        self.parts, self.samples, self.bad = [], [], 0
        self.outcomes = {}

    def elapsed(self):
        return time.time() - self.t0

    def evidence(self):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "calls_judged": self.calls, "answers": self.outcomes, "parts": self.parts, "samples": self.samples[:6]}
        e = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
             "assumptions": ["the file system does not change outside the recorded events", "Linux, UTF-8 paths"],
             "wall_s": round(self.elapsed(), 1), "violations": self.bad}
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{self.prop}.json", "w") as f:
            json.dump(e, f, indent=1, ensure_ascii=False)
            f.write("\n")


def violation(rep, binary, camp_name, mode, sc, out, pos, want, n):
    """Writes the replay file of one failing world, shrunk where that is possible, and reports it."""
    small = shrink.shrink(binary, sc, pos, rep.prop, mode) if n == 0 else None
    d = f"{VERIF}/work/replay"
    os.makedirs(d, exist_ok=True)
    path = f"{d}/{rep.prop}-{n}.json"
    rec = {"property": rep.prop, "part": camp_name, "mode": mode, "event": pos, "call": sc["ev"][pos], "answer": out["out"][pos], "specified": want,
           "scenario": sc, "outcome": out["out"]}
    if small:
        rec["smallest"] = small
    with open(path, "w") as f:
        json.dump(rec, f, indent=1, ensure_ascii=False)
    print(f"VIOLATION property={rep.prop} replay={path}")
    show = (small or {}).get("call", sc["ev"][pos])
    print(f"  {camp_name}: {json.dumps(show, ensure_ascii=False)}")
    print(f"  answered  {json.dumps((small or {}).get('answer', out['out'][pos]), ensure_ascii=False)}")
    print(f"  specified {json.dumps((small or {}).get('specified', want), ensure_ascii=False)}")
    sys.stdout.flush()


def alike(pairs):
    """One of each group of runs that differ in nothing but the schedule."""
    out, kept = {}, 0
    for s, o in pairs:
        for x in o["out"]:
            kept += bool(x.pop("kept", False))
        out.setdefault(json.dumps([s["fs"], s["res"], [{k: v for k, v in e.items() if k != "sched"} for e in s["ev"]], o["out"]]), (s, o))
    return list(out.values()), kept


def judged(rep, binary, name, mode, scs, share, extra=None, once=False):
    """Runs worlds through the real resolver and has TLC judge the recorded runs.  -> False on a violation"""
    t0 = time.time()
    outs = run.run(binary, scs)
    pairs = [(s, o) for s, o in zip(scs, outs) if o is not None]
    if once:
        ran = len(pairs)
        pairs, kept = alike(pairs)
        rep.traces += ran - len(pairs)
        extra = {**(extra or {}), "schedules_run": ran, "followed_step_by_step": kept}
    k = int(len(pairs) * share)
    dist = gen = 0
    bad = []
    for off, part, prop in ((0, pairs[:k], rep.prop), (k, pairs[k:], "-")):
        if part:
            b, (g, d) = judge.conform([p[0] for p in part], [p[1] for p in part], prop, mode, timeout=800)
            bad += [(off + i, p, w) for i, p, w in b]
            gen, dist = gen + g, dist + d
    rep.states += dist
    rep.transitions += gen - len(pairs)
    rep.traces += len(pairs)
    for _, o in pairs:
        for x in o["out"]:
            rep.outcomes[x["k"]] = rep.outcomes.get(x["k"], 0) + 1
    rep.calls += sum(len(o["out"]) for _, o in pairs)
    rep.parts.append({"part": name, "judged_as": mode, "worlds": len(pairs), "statement_evaluated_on": k, "mismatches": len(bad), "seconds": round(time.time() - t0, 1), **(extra or {})})
    if pairs:
        s, o = pairs[len(pairs) // 2]
        j = min(range(len(o["out"])), key=lambda j: o["out"][j]["k"] != "ok")
        rep.samples.append({"part": name, "tree": [n["p"] for n in s["fs"]][:14], "call": s["ev"][j], "answer": o["out"][j]})
    # the first failing event of each failing world; a crash rather than the calls it prevented
    first = {}
    for i, p, w in bad:
        o = pairs[i][1]["out"][p]["k"]
        if o == "unk":
            continue
        if i not in first or pairs[i][1]["out"][first[i][0]]["k"] not in ("crash", "hang") and o in ("crash", "hang"):
            first[i] = (p, w)
    for n, (i, (p, w)) in enumerate(list(first.items())[:5]):
        violation(rep, binary, name, mode, *pairs[i], p, w, n)
    rep.bad += len(first)
    return not first


def seed_of(base, *parts):
    return random.Random(f"{base}:" + ":".join(map(str, parts)))


def explore(rep, binary):
    prop, tier = rep.prop, rep.tier
    plan = campaigns.PLAN[prop]
    for c in plan:
        if c.kind == "fam" and (c.quick or tier == "thorough"):
            scs, st = judge.family(c.name)
            if not judged(rep, binary, f"family {c.name}", c.mode, scs, c.spec, {"exhaustive": True}):
                return False
        if c.kind == "sched" and (c.quick or tier == "thorough"):
            scs, total, (gen, dist) = judge.schedules(c.name, c.quick if tier == "quick" else 150000, seed_of(rep.seed, prop, c.name))
            rep.states, rep.transitions = rep.states + dist, rep.transitions + gen
            if not judged(rep, binary, f"schedules {c.name}", c.mode, scs, c.spec, {"schedules_of_the_specification": total, "exhaustive": len(scs) == total}, once=True):
                return False
    rnd = 0
    while True:
        for c in plan:
            if c.kind in ("fam", "sched"):
                continue
            n = c.quick if rnd == 0 else c.quick * 2
            if rnd and rep.elapsed() > THOROUGH_LIMIT - 90:
                return True
            scs = campaigns.scenarios(c, prop, seed_of(rep.seed, prop, c.name, c.mode, rnd), n)
            if not judged(rep, binary, f"{'worlds' if c.kind == 'prof' else 'laboratory'} {c.name}" + (f" round {rnd}" if rnd else ""), c.mode, scs, c.spec):
                return False
        rnd += 1
        if tier == "quick":
            return True


def main():
    if sys.argv[1:2] == ["--replay"]:
        return replay.replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    rep = Report(prop, tier, int(os.environ.get("VERIF_SEED", "1")))
    try:
        binary = run.build()
        ok = models.run(rep) and (prop not in campaigns.PLAN or explore(rep, binary))
        if ok:
            ok = replay.known(rep, binary)
        if ok and prop in campaigns.SPECIAL:
            ok = campaigns.SPECIAL[prop](rep, judged, violation)
        rep.evidence()
    except judge.SpecError as e:
        print(f"the specification breaks {prop} (an error of this framework): {e}")
        return 2
    except (judge.ToolError, SystemExit) as e:
        print(f"check failed: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    print(f"{prop}: {'held on' if ok else 'broken;'} {rep.traces} worlds, {rep.calls} calls and edits, {rep.states} states, {rep.elapsed():.0f} s")
    return 0 if ok else 1


if __name__ == "__main__":
    sys.exit(main())
