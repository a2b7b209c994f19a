"""Scenarios: a file tree, resolvers with options, and a list of API calls / file edits.

A scenario is written with plain Python values and turned into the JSON form both the
harness (harness/src/exec.rs) and the TLA+ specification (spec/*.tla) read.
"""
import json


class Link:
    def __init__(self, to):
        self.to = to


class Raw:
    """An already encoded JSON value."""

    def __init__(self, enc):
        self.enc = enc


BAD = Raw(["bad"])


def enc(v):
    if isinstance(v, Raw):
        return v.enc
    if v is None:
        return ["z"]
    if isinstance(v, bool):
        return ["b", v]
    if isinstance(v, int):
        return ["n", v]
    if isinstance(v, str):
        return ["s", v]
    if isinstance(v, (list, tuple)):
        return ["a", [enc(x) for x in v]]
    if isinstance(v, dict):
        return ["o", [[k, enc(x)] for k, x in v.items()]]
    raise TypeError(v)


FILE = "f"
DEVICE = "s"         # exists, but is neither a file nor a directory


def fs_list(tree):
    """{"/a/x.js": FILE, "/a/package.json": {...}, "/l": Link("a"), "/d/": None} -> node list, parents first."""
    out, dirs = [], set()

    def mkdirs(p):
        parts = p.split("/")[1:]
        for i in range(1, len(parts) + 1):
            d = "/" + "/".join(parts[:i])
            if d not in dirs:
                dirs.add(d)
                out.append({"p": d, "t": "d"})

    mkdirs("/R")
    links = []
    for p, v in tree.items():
        p = "/R" + p
        if p.endswith("/"):
            mkdirs(p[:-1])
            continue
        mkdirs(p.rsplit("/", 1)[0])
        if isinstance(v, Link):
            links.append({"p": p, "t": "l", "to": v.to})
        elif isinstance(v, str) and v == FILE:
            out.append({"p": p, "t": "f"})
        elif isinstance(v, str) and v == DEVICE:
            out.append({"p": p, "t": "s"})
        else:
            out.append({"p": p, "t": "j", "j": enc(v), "m": 0})
    return out + links


DEFAULTS = {
    "ext": [".js", ".json", ".node"],
    "enf": "none",
    "alias": [],
    "pr": False,
    "sym": True,
    "df": "package.json",
    "mfiles": ["index"],
    "mfields": ["main"],
    "bf": False,
    "cond": ["node"],
    "ts": "",
    "cache": 0,
}


def opts(**kw):
    o = dict(DEFAULTS)
    o.update(kw)
    o["alias"] = [[a, "ign", ""] if t is None else (list(t3) if (t3 := (a, "to", t)) else None) for a, t in o["alias"]]
    return o


def R(d, q, r=1):
    return {"op": "resolve", "r": r, "d": d, "q": q}


def S(d, r=1):
    return {"op": "side", "r": r, "d": d}


def W(p, j, m):
    return {"op": "write", "t": "j", "p": p, "j": enc(j), "m": m}


def RM(p):
    return {"op": "rm", "p": p}


def scenario(id, tree, ev, res=None):
    return {"id": id, "fs": fs_list(tree), "res": res or [opts()], "ev": ev}


def nodes(fs):
    """Node list -> inode table for the specification: 1 is "/"."""
    tab = [{"t": "d", "up": 1, "n": "", "e": {}}]
    at = {"": 1}
    for n in fs:
        parent, name = n["p"].rsplit("/", 1)
        up = at[parent]
        if n["t"] == "d":
            rec = {"t": "d", "e": {}}
        elif n["t"] == "f":
            rec = {"t": "f"}
        elif n["t"] == "s":
            rec = {"t": "s"}
        elif n["t"] == "j":
            rec = {"t": "j", "j": n["j"], "m": n["m"]}
        else:
            rec = {"t": "l", "to": n["to"]}
        rec["up"], rec["n"] = up, name
        tab.append(rec)
        at[n["p"]] = len(tab)
        tab[up - 1]["e"][name] = len(tab)
    return tab


def dump(path, scenarios):
    with open(path, "w") as f:
        for s in scenarios:
            f.write(json.dumps(s, ensure_ascii=False) + "\n")
