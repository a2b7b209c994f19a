"""Has TLC judge recorded runs against a trace specification in spec/."""
import json, os, re, shutil, subprocess, tempfile
from scn import nodes

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


class SpecError(Exception):
    """The specification itself breaks the property: an error of this framework, not of the code."""


def tlc(module, cfg=None, env=None, args=(), workers=8, heap="8g", timeout=840, cwd=None):
    meta = tempfile.mkdtemp(prefix="vp-tlc-")
    cmd = ["java", f"-Djava.io.tmpdir={meta}", "-Xss512m", f"-Xmx{heap}", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC",
           "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers), "-config", cfg or module + ".cfg", *args, module]
    try:
        p = subprocess.run(cmd, cwd=cwd or f"{VERIF}/spec", env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC did not finish {module} in {timeout} s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def states(text):
    m = re.findall(r"(\d[\d,]*) states generated.*?, (\d[\d,]*) distinct states found", text)
    return (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)


BATCH = 250000          # events in one run of TLC, which keeps their states in memory


def conform(scenarios, outcomes, prop, mode="agree", **k):
    """-> (mismatches [(run, pos, wanted)], (states, distinct states)).  Every event of every run is judged, or ToolError."""
    bad, gen, dist, at = [], 0, 0, 0
    while at < len(scenarios):
        end, events = at, 0
        while end < len(scenarios) and (end == at or events + len(scenarios[end]["ev"]) < BATCH and end - at < 10000):
            events += len(scenarios[end]["ev"])
            end += 1
        b, (g, d) = conform_batch(scenarios[at:end], outcomes[at:end], prop, mode, **k)
        bad += [(at + i, p, w) for i, p, w in b]
        gen, dist, at = gen + g, dist + d, end
    return bad, (gen, dist)


def conform_batch(scenarios, outcomes, prop, mode, module="Conform", work=None, timeout=840):
    own = work is None
    work = work or tempfile.mkdtemp(prefix="vp-judge-")
    path = f"{work}/runs.ndjson"
    total = 0
    with open(path, "w") as f:
        for s, o in zip(scenarios, outcomes):
            assert s["id"] == o["id"] and len(s["ev"]) == len(o["out"]), s["id"]
            f.write(json.dumps({"fs": nodes(s["fs"]), "res": s["res"], "ev": s["ev"], "out": o["out"]}, ensure_ascii=False) + "\n")
            total += len(s["ev"]) + 1
    try:
        rc, text = tlc(module, env={"VP_RUNS": path, "VP_PROP": prop, "VP_MODE": mode}, timeout=timeout)
        gen, dist = states(text)
        if rc != 0 or dist != total:
            raise ToolError(f"TLC judged {dist} of {total} steps (exit {rc}):\n" + "\n".join(text.split("\n")[-60:]))
        spec = re.findall(r'^"SPECFAIL (.*)"$', text, re.M)
        if spec:
            raise SpecError(spec[0].replace('\\"', '"'), len(spec))
        bad, threads = [], {}
        for m in re.findall(r'^"THREAD (.*)"$', text, re.M):
            d = json.loads(m.replace('\\"', '"').replace("\\\\", "\\"))
            threads.setdefault((d["run"], d["pos"]), []).append(d["want"])
        for m in re.findall(r'^"MISMATCH (.*)"$', text, re.M):
            d = json.loads(m.replace('\\"', '"').replace("\\\\", "\\"))
            bad.append((d["run"] - 1, d["pos"] - 1, threads.get((d["run"], d["pos"]), d["want"])))
        return sorted(bad, key=lambda b: b[:2]), (gen, dist)
    finally:
        if own:
            shutil.rmtree(work, ignore_errors=True)


def family(name):
    """The worlds of an exhaustive family, written out by TLC."""
    work = tempfile.mkdtemp(prefix="vp-fam-")
    try:
        rc, text = tlc("Worlds", env={"VP_FAMILY": name, "VP_OUT": f"{work}/out"}, workers=1)
        if rc or not os.path.exists(f"{work}/out"):
            raise ToolError(f"family {name}:\n" + text[-2000:])
        with open(f"{work}/out") as f:
            scs = [json.loads(l) for l in f]
        for i, s in enumerate(scs):
            s["id"] = f"{name}-{i}"
        return scs, len(scs)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def schedules(name, limit=None, rng=None):
    """The worlds and schedules of a setup of Cache.tla at the coarse grain, all or a sample of them; -> (worlds, how many there are)"""
    rc, text = tlc("CacheRuns", env={"VP_SETUP": name, "VP_GRAIN": "coarse"}, timeout=800)
    gen, dist = states(text)
    if rc:
        raise ToolError(f"schedules {name}:\n" + text[-2000:])
    setups, runs = {}, []
    for line in text.split("\n"):
        if line.startswith('"SETUP '):
            d = json.loads(line[7:-1].replace('\\"', '"').replace("\\\\", "\\"))
            setups[json.dumps(d["su"], sort_keys=True)] = d["world"]
        elif line.startswith('"RUN '):
            runs.append(line)
    total = len(runs)
    if limit and total > limit:
        runs = rng.sample(sorted(runs), limit)
    out = []
    for i, line in enumerate(sorted(runs)):
        d = json.loads(line[5:-1].replace('\\"', '"'))
        w = setups[json.dumps(d["su"], sort_keys=True)]
        out.append({"id": f"{name}-{i}", "fs": w["fs"], "res": w["res"], "ev": [{**e, "sched": d["s"]} if e["op"] == "par" else e for e in w["ev"]]})
    return out, total, (gen, dist)
