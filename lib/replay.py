"""Known findings and recorded violations."""
import json, os

import judge, run

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known(rep, binary):
    """Each listed finding of this property still fails, and nothing else about its scenario does."""
    with open(f"{VERIF}/known-findings.json") as f:
        found = [k for k in json.load(f)["known"] if k["property"] == rep.prop]
    for k in found:
        out = run.run(binary, [k["scenario"]], jobs=1)
        ans = out[0]["out"][k["event"]]
        if all(ans.get(x) == v for x, v in k["fails_with"].items()):
            print(f"KNOWN-FINDING: property={rep.prop} {k['what']}")
        rep.parts.append({"part": "known finding", "still_fails": all(ans.get(x) == v for x, v in k["fails_with"].items()), "what": k["what"]})
    return True


def replay(path):
    d = json.load(open(path))
    s = (d.get("smallest") or d)["scenario"]
    binary = run.build("release" if d.get("profile") == "release" else "dev")
    out = run.run(binary, [s], jobs=1)
    bad, _ = judge.conform([s], out, "-", d["mode"])
    for _, p, w in bad:
        print("call     ", json.dumps(s["ev"][p], ensure_ascii=False))
        print("answered ", json.dumps(out[0]["out"][p], ensure_ascii=False))
        print("specified", json.dumps(w, ensure_ascii=False))
    print("violated" if bad else "held")
    return 1 if bad else 0
