"""Makes a failing world smaller while it keeps failing the same way."""
import copy, time

import judge, run


def keep_events(sc, pos):
    """Only the failing call and the calls it is compared with (no edits in the run)."""
    ev = sc["ev"]
    if any(e["op"] in ("write", "rm", "touch", "mv", "new", "par") for e in ev):
        return None
    need = sorted({pos} | {ev[pos][k] - 1 for k in ("same", "rel") if k in ev[pos]})
    new = []
    for p in need:
        e = dict(ev[p])
        for k in ("same", "rel"):
            if k in e:
                if e[k] - 1 not in need:
                    return None
                e[k] = need.index(e[k] - 1) + 1
        new.append(e)
    return {**sc, "ev": new}, need.index(pos)


def cut_node(sc, k):
    p = sc["fs"][k]["p"]
    if p == "/R":
        return None
    return {**sc, "fs": [n for n in sc["fs"] if n["p"] != p and not n["p"].startswith(p + "/")]}


def cut_json(sc, k):
    """Variants of node k with one entry of its JSON removed."""
    n = sc["fs"][k]
    out = []

    def walk(j, put):
        if j[0] in ("o", "a"):
            for i in range(len(j[1])):
                out.append(put([j[0], j[1][:i] + j[1][i + 1:]]))
            for i in range(len(j[1])):
                def deeper(v, i=i):
                    xs = list(j[1])
                    xs[i] = [j[1][i][0], v] if j[0] == "o" else v
                    return put([j[0], xs])
                walk(j[1][i][1] if j[0] == "o" else j[1][i], deeper)

    walk(n["j"], lambda v: v)
    return [{**sc, "fs": sc["fs"][:k] + [{**n, "j": v}] + sc["fs"][k + 1:]} for v in out]


def failing(binary, cands, pos, prop, mode):
    outs = run.run(binary, cands, jobs=4)
    ok = [(c, o) for c, o in zip(cands, outs) if o]
    bad, _ = judge.conform([c for c, _ in ok], [o for _, o in ok], "-", mode, timeout=120)
    hit = {i: w for i, p, w in bad if p == pos}
    return [(ok[i][0], ok[i][1], w) for i, w in sorted(hit.items())]


def shrink(binary, sc, pos, prop, mode, seconds=45):
    t0 = time.time()
    try:
        got = keep_events(sc, pos)
        if not got:
            return None
        cur, pos = got
        now = failing(binary, [cur], pos, prop, mode)
        if not now:
            return None                         # it depends on the calls before it
        best = now[0]
        while time.time() - t0 < seconds:
            cur = best[0]
            cands = [c for k in range(len(cur["fs"])) if (c := cut_node(cur, k))]
            for k, n in enumerate(cur["fs"]):
                if n["t"] == "j":
                    cands += cut_json(cur, k)
            if not cands:
                break
            nxt = failing(binary, [{**c, "id": f"s{i}"} for i, c in enumerate(copy.deepcopy(cands[:400]))], pos, prop, mode)
            if not nxt:
                break
            best = min(nxt, key=lambda x: len(str(x[0]["fs"])))
        s, o, w = best
        return {"scenario": s, "call": s["ev"][pos], "answer": o["out"][pos], "specified": w}
    except (judge.ToolError, SystemExit, AssertionError):
        return None
