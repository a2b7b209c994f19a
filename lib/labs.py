"""Scenario generators aimed at one property each (the broad ones are in profiles.py)."""
import json
import re

import tweak
from gen import *
from profiles import PR

# --------------------------------------------------------------------------- exports / imports maps
LSEG = ["a", "b", "ab", "c", "lib", "a.js", "a-b", "x.y", "é", "日本", "$1", "$&", "@s", "**", "a b"]


def lab_files(r):
    segs = r.sample(LSEG, 5)
    out = set()
    for _ in range(r.randint(5, 9)):
        p = "/".join(r.choice(segs) for _ in range(r.randint(1, 3)))
        out.add(p + r.choice(["", ".js", ".js", ".json"]))
    files = set()
    for p in sorted(out):
        if not any(q.startswith(p + "/") or p.startswith(q + "/") for q in files):
            files.add(p)
    return segs, sorted(files)


def lab_key(r, segs, sub):
    """A key that may match sub."""
    x = r.random()
    if x < 0.22:
        return sub
    cut = [i + 1 for i, ch in enumerate(sub) if ch == "/"] + [0]
    if x < 0.5:
        return sub[: r.choice(cut)]                       # folder
    if x < 0.9:
        i = r.choice(cut) if r.random() < 0.6 else r.randint(0, len(sub))
        return sub[:i] + "*"
    return "/".join(r.choice(segs) for _ in range(r.randint(1, 2))) + r.choice(["", "/", "*", "/*"])


def lab_target(r, files, key, sub):
    f = r.choice(files)
    if key.endswith("*") and sub.startswith(key[:-1]):
        rest = sub[len(key) - 1:]
        if rest:
            for g in r.sample(files, len(files)):
                if rest in g:
                    return "./" + g.replace(rest, "*", 1 if r.random() < 0.7 else -1)
        return "./" + r.choice([f, "*", "lib/*", "*/*"])
    if (key.endswith("/") or key == "") and sub.startswith(key):
        rest = sub[len(key):]
        for g in r.sample(files, len(files)):
            if rest and g.endswith("/" + rest):
                return "./" + g[: -len(rest)]
        return "./" + (f.rsplit("/", 1)[0] + "/" if "/" in f else r.choice(["", "lib/"]))
    return "./" + f


def lab_value(r, files, key, sub, depth=0):
    x = r.random()
    if depth < 3 and x < 0.12:
        ks = r.sample(CONDS, r.randint(1, 3)) + (["default"] if r.random() < 0.6 else [])
        return {k: lab_value(r, files, key, sub, depth + 1) for k in ks}
    if depth < 2 and x < 0.18:
        vs = [lab_value(r, files, key, sub, 2) for _ in range(r.randint(1, 3))]
        return [v for v in vs if not isinstance(v, list)]
    if x < 0.21:
        return None
    return lab_target(r, files, key, sub)


def maplab(r, id, kind=None):
    kind = kind or r.choice(["exports", "imports"])
    segs, files = lab_files(r)
    subs = []
    for _ in range(r.randint(2, 4)):
        s = "/".join(r.choice(segs) for _ in range(r.randint(1, 3)))
        subs.append(s if r.random() < 0.6 else r.choice(files))
    m = {}
    for _ in range(r.randint(2, 6)):
        sub = r.choice(subs)
        key = lab_key(r, segs, sub)
        if kind == "imports":
            if not key or key.startswith("/"):
                continue
            m.setdefault("#" + key, lab_value(r, files, key, sub))
        else:
            m.setdefault("./" + key, lab_value(r, files, key, sub))
    ks = list(m)
    r.shuffle(ks)
    m = {k: m[k] for k in ks}
    if not m:
        m = {"#a": "./a.js"} if kind == "imports" else {".": "./a.js"}
    d = "/p/node_modules/foo"
    t = {f"{d}/{f}": FILE for f in files}
    if "package.json" not in t:
        t[f"{d}/package.json"] = {"name": "foo", kind: m}
    t["/p/a.js"] = FILE
    reqs = list(subs)
    for _ in range(6):
        s = r.choice(subs)
        y = r.random()
        if y < 0.3:
            k = r.choice(list(m)).lstrip("#")
            k = k[2:] if k.startswith("./") else k
            s = (k[:-1] if k.endswith("*") else k) + r.choice(["", s.rsplit("/", 1)[-1], r.choice(segs), s])
        elif y < 0.5:
            s = s + r.choice(["", "/", ".js", "x", "/" + r.choice(segs)])
        elif y < 0.7:
            s = s[: r.randint(1, len(s))]
        elif y < 0.8:
            s = "/".join(r.choice(segs) for _ in range(r.randint(1, 3)))
        reqs.append(s)
    res = [opts(cond=r.sample(CONDS, r.randint(0, 3)))]
    if kind == "imports":
        ev = [R("/R" + d, "#" + q) for q in reqs]
    else:
        ev = [R("/R/p", "foo/" + q) for q in reqs] + [R("/R/p", "foo")]
        if r.random() < 0.15:                    # query and fragment are looked up, too
            to = r.choice(["./", "./in/", "./a/"])
            star = r.random() < 0.7
            m.setdefault("./*" if star else "./", to + "*" if star else to)
            for x in ("index.js", "x/index.js", "x.js"):
                if not any(f"{d}{to[1:]}{x}".startswith(k + "/") or k.startswith(f"{d}{to[1:]}{x}/") for k in t):
                    t.setdefault(f"{d}{to[1:]}{x}", FILE)
            ev += [R("/R/p", "foo" + q) for q in r.sample(["?q", "#f", "?q#f", "/?q", "/x?q", "/x#f", "/x/?q", "?x", "?q/x", "#f/x"], 4)]
    return scenario(id, t, ev, res)


def condlab(r, id):
    """Deep conditional mappings; every leaf is a file of its own, some missing."""
    n = [0]
    t = {}
    d = "/p/node_modules/foo"
    early = 0.4 if r.random() < 0.2 else 0.02

    def val(depth):
        x = r.random()
        if depth < 4 and x < 0.5:
            ks = r.sample(CONDS, r.randint(0, 3))
            if r.random() < 0.4:
                ks.append("default")
            if r.random() < early:
                r.shuffle(ks)
            return {k: val(depth + 1) for k in ks}
        if depth < 4 and x < 0.65:
            vs = [val(depth + 1) for _ in range(r.randint(0, 3))]
            return [v for v in vs if not isinstance(v, list)]
        if x < 0.7:
            return None
        n[0] += 1
        f = f"f{n[0]}.js"
        if r.random() < 0.75:
            t[f"{d}/{f}"] = FILE
        return "./" + f + (r.choice(["?q", "#h"]) if r.random() < 0.04 else "")

    how = r.choice(["root", "dot", "key", "imports"])
    m = val(0)
    if how == "root":
        j = {"exports": m}
    elif how == "dot":
        j = {"exports": {"./x": val(0), ".": m}}
    elif how == "key":
        j = {"exports": {"./k": m, "./x/*": val(1)}}
    else:
        j = {"imports": {"#k": m}}
    t[f"{d}/package.json"] = j
    res, ev = [], []
    for i in range(5):
        cs = r.sample(CONDS, r.randint(0, len(CONDS)))
        if i == 4:
            cs = list(res[3]["cond"]) + ["unused"]
            r.shuffle(cs)
        res.append(opts(cond=cs))
        q = {"root": "foo", "dot": "foo", "key": "foo/k", "imports": "#k"}[how]
        ev.append(R("/R" + d if how == "imports" else "/R/p", q, i + 1))
        if r.random() < 0.3:
            ev.append(R("/R/p", "foo/x" + r.choice(["", "/y"]), i + 1))
    return scenario(id, t, ev, res)


# --------------------------------------------------------------------------- relational properties
def same(ev, k):
    return {**ev, "same": k}


def pairs(r, id):
    """C25: resolver 2 has options (or a tree) with additions nothing can refer to."""
    f = P({**PR["C21"], "ots": 0.0, "badjson": 0.02, "badmap": 0.02, "qf": 0.1, "links": 0.15, "df": 0.0, "odf": 0.0, "obf": 0.25, "junk": 0.08})
    if r.random() < 0.4:
        f = P({**f, "bf": 0.0, "main": 0.9, "main2": 0.6, "omfd": 0.8, "oext": 0.5, "omf": 0.5, "obf": 0.0})
    w = World(r, f)
    w.build()
    o = w.options()
    o2 = dict(o)
    x = r.randint(0, 9)
    hasbrowser = any(isinstance(v, dict) and isinstance(v.get("browser"), dict) for v in w.t.values())
    if x == 0 or r.random() < 0.15:
        o2["cond"] = o["cond"] + ["zz1", "zz2", "zz3", "zz4"][: r.randint(1, 4)]
        r.shuffle(o2["cond"])
    if x == 1 or r.random() < 0.15:
        o2["ext"] = o["ext"] + [".zz9"] if o["enf"] != "none" or "" not in o["ext"] else o["ext"] + [".zz9", ".zz8"]
    if x == 2 or r.random() < 0.15:
        o2["mfiles"] = o["mfiles"] + ["zz-none", "zz-b", "zz/c"][: r.randint(1, 3)]
    if x == 3 or r.random() < 0.15:
        o2["mfields"] = o["mfields"] + ["zzfield", "zzb", "zzc", "zzd"][: r.randint(1, 4)]
    if x == 4 or r.random() < 0.15:
        al = list(o["alias"])
        al.insert(r.randint(0, len(al)), r.choice([["zz-none", "to", "./a"], ["zz-none", "ign", ""], ["./zz-none", "to", "foo"]]))
        o2["alias"] = al
    if (x == 5 or r.random() < (0.15 if f["bf"] else 0.4)) and not hasbrowser:
        o2["bf"] = True
    if x == 6 or r.random() < 0.15:
        w.t["/ts-none.json"] = r.choice([{}, {"compilerOptions": {}}, {"compilerOptions": {"baseUrl": "."}}, {"compilerOptions": {"baseUrl": ".", "paths": {}}},
                                         {"compilerOptions": {"paths": {"*": ["./p/*"]}}}, {"compilerOptions": {"baseUrl": "./p", "paths": {"zz-none/*": ["./*"], "zz-none": ["./a"]}}}])
        o2["ts"] = "/R/ts-none.json"
    ev = []
    calls = []
    for _ in range(10):
        d, q = w.call()
        calls.append((d, q))
    for d, q in calls:
        ev.append(R(d, q, 1))
        ev.append(same(R(d, q, 2), len(ev)))
    if r.random() < 0.5:
        n = len(ev)
        for _ in range(r.randint(1, 3)):
            d = r.choice([x for x in w.dirs() if not any(isinstance(v, Link) and (x == k or x.startswith(k + "/")) for k, v in w.t.items())])
            if any(k.rstrip("/") == d and not k.endswith("/") for k in w.t) or d == "/p/src/lib" or d == "/p/src" or d == "/p":
                d = "/p"
            if r.random() < 0.7:
                ev.append({"op": "write", "t": "f", "p": f"/R{d}/zz-f{len(ev)}"})
            else:
                ev.append({"op": "write", "t": "d", "p": f"/R{d}/zz-d{len(ev)}"})
        for i, (d, q) in enumerate(calls):
            ev.append(same(R(d, q, r.choice([1, 2])), 2 * i + 1))
    if not any(k.startswith("/p/") for k in w.t):
        w.t["/p/a.js"] = FILE
    return scenario(id, w.t, ev, [o, o2])


def prefer(r, id):
    """C14: resolver 1 without, resolver 2 with prefer_relative."""
    f = P({**PR["C14"], "opr": 0.0, "oalias": 0.0})
    w = World(r, f)
    w.build()
    o = w.options()
    ev = []
    for _ in range(8):
        d, q = w.call()
        ev.append(R(d, q, 1))
        k = len(ev)
        if not q.startswith(("./", "../", "/", "#")) and q.split("?")[0].split("#")[0] not in ("", ".", ".."):
            ev.append(R(d, "./" + q, 1))
            ev.append({**R(d, q, 2), "rel": k + 1, "same": k})
        else:
            ev.append({**R(d, q, 2), "same": k})
    return scenario(id, w.t, ev, [o, {**o, "pr": True}])


def spread(r, t, times=3):
    """Copies fields, as they are or slightly changed, between descriptions; -> the descriptions"""
    js = [k for k, v in t.items() if isinstance(v, dict) and k.endswith(("package.json", "pkg.json"))]
    for _ in range(times):
        if len(js) > 1 and r.random() < 0.7:
            a, b = r.sample(js, 2)
            fld = r.choice(["exports", "imports", "exports", "main", "browser"])
            if fld in t[a]:
                v = t[a][fld]
                x = r.random()
                if x > 0.75 and isinstance(v, dict):
                    ks = list(v)
                    r.shuffle(ks)
                    t[b] = {**t[b], fld: {k: v[k] for k in ks}}
                else:
                    t[b] = {**t[b], fld: v if x < 0.3 else tweak.value(r, v, ["./a.js", "./b.js"])}
    return js


def history(r, id):
    """C18: the same calls in one resolver again and again, in other orders, and in fresh resolvers."""
    f = P({**PR["C21"], "links": 0.25, "messy": 0.3, "odddir": 0.6, "osym": 0.3, "badmap": 0.02, "badjson": 0.03})
    w = World(r, f)
    w.build()
    spread(r, w.t)
    if f["ots"]:
        w.tsconfigs()
    o = w.options()
    calls = []
    for _ in range(7):
        calls.append(S(w.importer()) if r.random() < 0.2 else R(*w.call()))
    ev = list(calls)
    first = {i: i + 1 for i in range(len(calls))}
    for turn in range(2):
        order = [r.randrange(len(calls)) for _ in range(7)] if turn == 0 else r.sample(range(len(calls)), len(calls))
        for i in order:
            ev.append(same(calls[i], first[i]))
    for i in r.sample(range(len(calls)), 4):
        ev.append({**calls[i], "r": 2, "same": first[i]})
        ev.append({"op": "new", "r": 2})
    return scenario(id, w.t, ev, [o, o])


def shared(r, id):
    """C19: resolvers with different options on one cache, each with a twin that has its own."""
    f = P({**PR["C21"], "df": 0.2, "odf": 0.3, "oext": 0.6, "omf": 0.4, "omfd": 0.5, "ocond": 0.8, "obf": 0.5, "osym": 0.4, "opr": 0.3, "oalias": 0.4, "ots": 0.15, "exports": 0.5, "imports": 0.5, "cond": 0.35, "selfref": 0.1, "internal": 0.2, "badmap": 0.015, "badjson": 0.02})
    w = World(r, f)
    w.build()
    w.tsconfigs()
    # equal contents in different packages and fields
    js = spread(r, w.t)
    if js and r.random() < 0.4:
        a = r.choice(js)
        same_map = r.choice([{"node": "./a.js", "x": "./b.js"}, {"node": ["./none.js", "./a.js"]}, {"./a": "./a.js"}])
        w.t[a]["exports"] = same_map
        w.t[r.choice(js)]["imports"] = {"#" + k.lstrip("./"): v for k, v in same_map.items()} if r.random() < 0.7 else same_map
    n = r.randint(2, 3)
    base = w.options()
    res = []
    for i in range(n):
        o = w.options()
        if r.random() < 0.6:      # differ in one option only
            k = r.choice(["cond", "ext", "mfiles", "mfields", "bf", "df", "sym", "pr", "alias", "ts", "enf"])
            o = {**base, k: o[k]}
        res.append(o)
    both = [{**o, "cache": 1} for o in res] + res
    calls = []
    for _ in range(5):
        calls.append(S(w.importer()) if r.random() < 0.2 else R(*w.call()))
    ev = []
    for _ in range(12):
        c = r.choice(calls)
        i = r.randint(1, n)
        ev.append({**c, "r": n + i})
        ev.append(same({**c, "r": i}, len(ev)))
    return scenario(id, w.t, ev, both)


def fresh(r, id):
    """C17: edits between calls; resolvers that have seen the old tree against one that has not."""
    f = P({**PR["C07"], "imports": 0.35, "internal": 0.2, "bf": 0.2, "obf": 0.3, "se": 0.5, "main2": 0.2, "badjson": 0.04, "badmap": 0.015, "badse": 0.1, "links": 0.15, "ots": 0.1, "omfd": 0.3, "odddir": 0.2, "nested": 0.6})
    w = World(r, f)
    w.build()
    w.tsconfigs()
    start = dict(w.t)
    o = w.options()
    o2 = {**o, "cond": r.sample(CONDS, 2)} if r.random() < 0.5 else o
    res = [{**o, "cache": 1}, {**o2, "cache": 1}, o, o2]
    # real directories a description can be put in
    links = [k for k, v in w.t.items() if isinstance(v, Link)]
    plain = {k for k in w.t if not k.endswith("/")}
    ds = [d for d in w.dirs() if d not in plain and not any(d == l or d.startswith(l + "/") for l in links)]
    ds = [d for d in ds if any(k.startswith(d + "/") for k in w.t)]
    calls = []
    for _ in range(4):
        calls.append(S(w.importer()) if r.random() < 0.3 else R(*w.call()))
    for d in r.sample(ds, min(2, len(ds))):
        calls.append(S("/R" + d))
    now = 10000
    mt = {}
    live = {k for k in w.t if k.endswith("/package.json") and not isinstance(w.t[k], Link)}
    for k in live:
        mt[k] = [0]
    files = {k for k in w.t if not k.endswith(("/", "package.json")) and not isinstance(w.t[k], Link)}
    ev = []

    def look():
        for c in r.sample(calls, r.randint(2, len(calls))):
            for a, b in ((1, 3), (2, 4)):
                if a == 2 and r.random() < 0.6:
                    continue
                ev.append({"op": "new", "r": b})
                ev.append({**c, "r": b})
                ev.append(same({**c, "r": a}, len(ev)))

    look()
    for _ in range(r.randint(2, 6)):
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            now += 20000
            x = r.random()
            if x < 0.5 or not ds:
                k = r.choice(sorted(live)) if live and r.random() < 0.75 else (r.choice(ds) if ds else "/p") + "/package.json"
                if any(k == l or k.startswith(l + "/") for l in links) or k in files or k + "/" in w.t or (k not in live and any(y.startswith(k + "/") for y in w.t)):
                    continue
                name = k.rsplit("/", 2)[1]
                j = w.pkgjson(k.rsplit("/", 1)[0], name)
                old = w.t.get(k)
                if isinstance(old, dict) and isinstance(j, dict) and old:
                    y = r.random()
                    if y < 0.35:                                                                   # change one field only
                        j = {**old, **{y: j[y] for y in list(j)[:1]}}
                    elif y < 0.7:
                        fld = r.choice(list(old))
                        j = {**old, fld: tweak.value(r, old[fld], ["./a.js", "./b.js"])}
                # not within a second after any time the file had before
                seen = mt.setdefault(k, [])
                cand = [0, 1, 500] + [x + y for x in seen for y in (1000, 1001, 5000)] + [x - y for x in seen for y in (1, 999, 1000, 2000, 5000)] + [now]
                cand = [m for m in cand if m >= 0 and all(m >= x + 1000 or m < x for x in seen)]
                m = r.choice(cand)
                seen.append(m)
                ev.append(W("/R" + k, j, m))
                live.add(k)
                w.t[k] = j
            elif x < 0.68 and live:
                k = r.choice(sorted(live))
                ev.append(RM("/R" + k))
                live.discard(k)
                w.t.pop(k, None)
            elif x < 0.78 and live:
                k = r.choice(sorted(live))
                mt[k].append(max(mt[k]) + 1000)
                ev.append({"op": "touch", "p": "/R" + k, "m": mt[k][-1]})
            elif x < 0.9:
                d = r.choice(ds)
                k = d + "/" + r.choice(FILES)
                if k not in w.t and k + "/" not in w.t and not any(y.startswith(k + "/") for y in w.t) and not any(k.startswith(y + "/") for y in files):
                    ev.append({"op": "write", "t": "f", "p": "/R" + k})
                    files.add(k)
                    w.t[k] = FILE
            elif files:
                k = r.choice(sorted(files))
                ev.append(RM("/R" + k))
                files.discard(k)
                w.t.pop(k)
        look()
    return scenario(id, start, ev, res)


def moving(r, id):
    """Files, directories, links and tsconfigs of every kind come, go and change places between calls."""
    w = World(r, P({**PR["C21"], "badjson": 0.02, "badmap": 0.01, "links": 0.5, "ots": 0.35, "extends": 0.5, "badts": 0.1, "bf": 0.2, "obf": 0.3, "main": 0.5, "odddir": 0.2, "nested": 0.5, "osym": 0.25, "opr": 0.2, "messy": 0.1, "df": 0.0, "odf": 0.0}))
    w.build()
    w.tsconfigs()
    o = w.options()
    t = dict(w.t)
    t.setdefault("/trash/", None)
    s = scenario(id, t, [], [{**o, "cache": 1}, {**o, "cache": 2}, o])
    now = 0
    for n in s["fs"]:
        if n["t"] == "j":
            now += 10000
            n["m"] = now
    stamps = {n["p"][2:]: n["m"] for n in s["fs"] if n["t"] == "j"}
    calls = [S(w.importer()) if r.random() < 0.15 else R(*w.call()) for _ in range(5)]
    ev, ans = s["ev"], {}

    def look():
        for i in r.sample(range(len(calls)), r.randint(2, len(calls))):
            ev.append({"op": "new", "r": 3})
            ev.append({**calls[i], "r": 3})
            ev.append(same({**calls[i], "r": r.choice([1, 1, 2])}, len(ev)))

    def plain(k):
        return not any(isinstance(v, Link) and k.startswith(p + "/") for p, v in t.items())

    def dirs():
        return sorted({"/".join(k.split("/")[:n]) for k in t for n in range(2, k.count("/") + 1)} - {""})

    def there(k):
        return k in t or k + "/" in t or any(x.startswith(k + "/") for x in t)

    def move(a, b):
        ev.append({"op": "mv", "p": "/R" + a, "to": "/R" + b})
        kept = a.rsplit("/", 1)[0]
        if kept:
            t[kept + "/"] = None
        for k in [k for k in t if k.rstrip("/") == a or k.startswith(a + "/")]:
            t[b + k[len(a):]] = t.pop(k)

    def free():
        d = r.choice([d for d in dirs() if plain(d + "/") and d not in t])
        k = d + "/" + r.choice(["a", "a.js", "lib", "foo", "index.js", "bar", "main.js", "src", "node_modules", "b.json", "index", "p.ts"])
        return None if there(k) else k

    look()
    gone = []
    for _ in range(r.randint(2, 6)):
        for _ in range(r.choice([1, 1, 2])):
            now += 20000
            x = r.random()
            fs = sorted(k for k in t if not k.endswith("/") and plain(k))
            ds = [d for d in dirs() if plain(d + "/") and d not in t and d not in ("/trash", "/p")]
            ts = [k for k in fs if isinstance(t[k], dict) and not k.endswith("package.json")]
            if x < 0.2 and fs:
                k = r.choice(fs)
                ev.append(RM("/R" + k))
                t[k.rsplit("/", 1)[0] + "/"] = None
                v = t.pop(k)
                if v == FILE and r.random() < 0.2:
                    ev.append({"op": "write", "t": "d", "p": "/R" + k})
                    t[k + "/"] = None
            elif x < 0.35:
                k = free()
                if k:
                    ev.append({"op": "write", "t": "f", "p": "/R" + k})
                    t[k] = FILE
            elif x < 0.5 and gone:
                a, b = gone.pop(r.randrange(len(gone)))
                if not there(b) and plain(b) and plain(a) and there(a) and b.rsplit("/", 1)[0] in dirs() and b.rsplit("/", 1)[0] not in t:
                    move(a, b)
            elif x < 0.7 and (ds or fs):
                a = r.choice(ds if ds and r.random() < 0.7 else fs or ds)
                b = f"/trash/{len(ev)}" if r.random() < 0.6 else free()
                if b and not b.startswith(a + "/"):
                    move(a, b)
                    gone.append((b, a))
            elif x < 0.82:
                ls = [k for k in fs if isinstance(t[k], Link)]
                k = r.choice(ls) if ls and r.random() < 0.6 else free()
                if k:
                    if k in t:
                        ev.append(RM("/R" + k))
                    to = r.choice(ds + fs) if ds or fs else "/p"
                    if isinstance(t.get(k), Link):               # to where there is something of the same name
                        old = t[k].to.removeprefix("/R")
                        like = [d for d in ds if any(x.startswith(old + "/") and d + x[len(old):] in t for x in t)]
                        if d_ := [d for d in like if d != old]:
                            to = r.choice(d_) if r.random() < 0.7 else to
                    ev.append({"op": "write", "t": "l", "p": "/R" + k, "to": "/R" + to})
                    t[k] = Link("/R" + to)
            elif x < 0.92 and ts:
                k = r.choice(ts)
                v = t[k]
                if r.random() < 0.5:
                    v = w.tsconfig()
                elif isinstance(v, dict) and v:
                    fld = r.choice(list(v))
                    v = {**v, fld: tweak.value(r, v[fld], ["./*", "src/*"])}
                at = r.choice([0, 10000, now])
                if r.random() < 0.4:                             # as long and as old as before
                    a, b = r.choice([("foo", "bar"), ("lib", "src"), ("./a", "./b"), ("a.js", "b.js"), ('"a"', '"b"'), ("main", "type")])
                    text = json.dumps(t[k]) if isinstance(t[k], dict) and not any(isinstance(y, Raw) for _, y in tweak.leaves(t[k])) else "{}"
                    if a in text or b in text:
                        v, at = json.loads(text.replace(a, "\0").replace(b, a).replace("\0", b)), stamps.get(k, 0)
                stamps[k] = at
                ev.append(W("/R" + k, v, at))
                t[k] = v
            else:
                pk = [k for k in fs if k.endswith("/package.json") and not isinstance(t[k], (Link, str))]
                if pk:
                    k = r.choice(pk)
                    t[k] = w.pkgjson(k.rsplit("/", 1)[0], r.choice(["p", "foo", "a"]))
                    ev.append(W("/R" + k, t[k], now))
        look()
    return s


def retarget(r, id):
    """One link leads to one like-named directory after another; tsconfigs change without getting longer or newer."""
    own = ["/v/one", "/v/two", "/v/six"]
    names = ["a.js", "b.js", "a/index.js", "index.js", "lib/a.js", "lib/b.js", "lib/index.js"]
    t = {"/p/z.js": FILE, "/p/src/z.js": FILE, "/q/a.js": FILE, "/q/b.js": FILE, "/q/lib/a.js": FILE}
    stamp, now = {}, 0
    for d in own:
        for f in names:
            if r.random() < 0.6:
                t[f"{d}/{f}"] = FILE
        t.setdefault(d + "/a.js", FILE)
        if r.random() < 0.7:
            t[d + "/package.json"] = {"name": "foo", **({"exports": r.choice(["./a.js", {".": "./b.js", "./a": "./lib/a.js"}, {"./*": "./lib/*.js", ".": "./a.js"}])} if r.random() < 0.4 else {}),
                                      "main": r.choice(["./a.js", "./b", "lib"])}

    def tsconfig():
        j = {"compilerOptions": {"paths": {r.choice(["foo", "x", "l/*", "foo/*"]): r.sample(["./a.js", "./b.js", "lib/*", "src/*", "./a", "./b", "../q/*"], r.randint(1, 2)) for _ in range(r.randint(1, 2))}}}
        if r.random() < 0.4:
            j["compilerOptions"]["baseUrl"] = r.choice([".", "./lib", "./src", "../q", "lib"])
        if r.random() < 0.2:
            j["extends"] = r.choice(["./base.json", "./ease.json"])
        return j

    tsat = r.choice(["/p/tsconfig.json", "/p/src/tsconfig.json", "/v/one/tsconfig.json"])
    for k in {tsat, tsat.replace("tsconfig", "base"), tsat.replace("tsconfig", "ease"), "/v/two/tsconfig.json"}:
        t[k] = tsconfig()
        t[k].pop("extends", None) if k != tsat else 0
    links = r.sample(["/p/cur", "/p/node_modules/foo", "/p/src/cur", "/p/cur2"], r.randint(1, 3))
    if r.random() < 0.2:
        t["/w"], links = Link("/R/p"), links
    for k in links:
        t[k] = Link("/R" + r.choice(own))
    if r.random() < 0.4:
        t["/p/cur.js"] = Link("/R" + r.choice(own) + "/a.js")
    via = [k for k in t if isinstance(t[k], Link)]
    s = scenario(id, t, [], None or [{**(o := opts(**{**({"ts": "/R" + r.choice([tsat, tsat, tsat, "/p/cur/tsconfig.json"])} if r.random() < 0.75 else {}), **({"sym": False} if r.random() < 0.1 else {})})), "cache": 1}, {**o, "cache": 2}, o])
    for n in s["fs"]:
        if n["t"] == "j":
            now += 10000
            n["m"] = now
            stamp[n["p"][2:]] = now
    calls = [R("/R/p", q) for q in r.sample(["./cur", "./cur/a", "./cur/b", "./cur/lib", "foo", "foo/a", "foo/lib/b", "./src/cur/a", "./cur2/a", "./cur.js", "x", "l/a", "l/b", "foo/b", "/R/w/cur/a", "/R/p/cur/lib/a"], 6)]
    calls += [R("/R" + d, q) for d, q in r.sample([("/p/cur", "./a"), ("/p/cur", "./lib/a"), ("/p/cur", "../z"), ("/p/cur", "foo"), ("/p/src/cur", "./b"), ("/p/node_modules/foo", "./a"), ("/w/cur", "./a"), ("/p/src", "foo/a"), ("/p/cur/lib", "./a")], 2)]
    ev = s["ev"]

    def look():
        for i in r.sample(range(len(calls)), r.randint(3, 6)):
            ev.append({"op": "new", "r": 3})
            ev.append({**calls[i], "r": 3})
            ev.append(same({**calls[i], "r": r.choice([1, 1, 2])}, len(ev)))

    look()
    for _ in range(r.randint(2, 5)):
        x = r.random()
        now += 20000
        if x < 0.55:
            k = r.choice(via)
            to = t[k].to
            tail = "/a.js" if k.endswith(".js") else ""
            t[k] = Link(r.choice(["/R" + d + tail for d in own if "/R" + d + tail != to] if to != "/R/p" else ["/R/q"]))
            ev.append(RM("/R" + k))
            ev.append({"op": "write", "t": "l", "p": "/R" + k, "to": t[k].to})
        elif x < 0.85:
            k = tsat if r.random() < 0.6 else r.choice([k for k in t if isinstance(t[k], dict) and not k.endswith("package.json")])
            v, at = tsconfig(), r.choice([stamp[k], now])
            if k != tsat:
                v.pop("extends", None)
            if r.random() < 0.7:
                ab = [("./a.js", "./b.js"), ("lib/", "src/"), ("./a", "./b"), ("foo", "fox"), ('"x"', '"y"'), ("base", "ease"), (".js", ".jt"), ('"l/', '"k/')]
                a, b = r.choice([y for y in ab if y[0] in json.dumps(t[k]) or y[1] in json.dumps(t[k])] or ab)
                v, at = json.loads(json.dumps(t[k]).replace(a, "\0").replace(b, a).replace("\0", b)), stamp[k]
            ev.append(W("/R" + k, v, at))
            t[k], stamp[k] = v, at
        else:
            k = r.choice([k for k in t if t[k] == FILE and k.startswith("/v/")] or ["/p/z.js"])
            ev.append(RM("/R" + k))
            del t[k]
        look()
    return s


# --------------------------------------------------------------------------- a small tree where descriptions decide
SLOTS = ["", "/p", "/p/src", "/p/src/lib", "/p/node_modules/foo", "/p/node_modules/foo/lib", "/p/node_modules/bar", "/p/src/node_modules/foo", "/p/node_modules", "/p/src/node_modules/@s/q"]
SMALL_FILES = ["/p/a.js", "/p/b.js", "/p/src/a.js", "/p/src/index.js", "/p/src/lib/a.js", "/p/src/lib/b.js", "/p/node_modules/foo/a.js", "/p/node_modules/foo/b.js",
               "/p/node_modules/foo/index.js", "/p/node_modules/foo/lib/a.js", "/p/node_modules/foo/lib/index.js", "/p/node_modules/bar/a.js", "/p/node_modules/bar/index.js",
               "/p/src/node_modules/foo/a.js", "/p/src/node_modules/@s/q/a.js", "/p/src/node_modules/@s/q/b.js"]
SMALL_CALLS = [("/p", "foo"), ("/p", "foo/a"), ("/p", "foo/lib"), ("/p", "foo/lib/a.js"), ("/p", "#x"), ("/p/src", "#x"), ("/p/src/lib", "#x"), ("/p/src", "foo"), ("/p/src", "foo/a"),
               ("/p/src", ".."), ("/p", "./src"), ("/p/src", "./lib"), ("/p/src", "./a"), ("/p/src/lib", "./a"), ("/p", "./a"), ("/p", "bar"), ("/p", "bar/a"), ("/p/node_modules/foo", "bar"),
               ("/p/node_modules/foo", "foo"), ("/p/node_modules/foo", "foo/a"), ("/p/node_modules/foo", "./a"), ("/p/node_modules/foo/lib", "#x"), ("/p/node_modules/foo", "#x"),
               ("/p/src", "@s/q"), ("/p/src", "@s/q/a"), ("/p/src", "p/a"), ("/p", "p"), ("/p/src", "bar"), ("/p/src/lib", "foo"), ("/p/src/lib", "bar?q"), ("/p", "./node_modules/foo"),
               ("/p/src/node_modules/@s/q", "#x"), ("/p/src/node_modules/@s/q", "@s/q")]


def small_desc(r, d):
    x = r.random()
    if x < 0.05:
        return BAD
    if x < 0.08:
        return r.choice([None, [], 3, {"exports": 1}, {"imports": {"x": "./a.js"}}, {"sideEffects": "x"}, {"exports": {"./a": "./a.js", "b": "./b.js"}}])
    j = {}
    if r.random() < 0.6:
        j["name"] = r.choice(["p", "foo", "bar", "@s/q", "src"])
    if r.random() < 0.5:
        j["main"] = r.choice(["a", "./a.js", "b", "./lib", "lib/a", "none"])
    if r.random() < 0.15:
        j["module"] = r.choice(["a", "b", "./lib"])
    if r.random() < 0.4:
        j["exports"] = r.choice(["./a.js", "./b.js", {"./a": "./b.js"}, {"./a": "./a.js", ".": "./a.js"}, {"./*": "./lib/*.js"}, {"./*": "./*.js", ".": "./b.js"}, {"node": "./a.js", "x": "./b.js"}, {"x": "./b.js", "node": "./a.js"},
                                 {".": {"x": "./b.js", "default": "./a.js"}, "./lib/": "./lib/"}, {"./a": None, "./lib": "./lib/a.js"}, ["./none.js", "./b.js"], None])
    if r.random() < 0.4:
        j["imports"] = r.choice([{"#x": "./a.js"}, {"#x": "./b.js"}, {"#x": "foo"}, {"#x": "bar/a"}, {"#x": {"x": "./b.js", "node": "./a.js"}}, {"#x*": "./a.js"}, {"#y": "./a.js"}, {"#x": "#y", "#y": "./b.js"}, None])
    if r.random() < 0.25:
        j["browser"] = r.choice([{"./a.js": "./b.js"}, {"foo": False}, {"foo": "bar"}, {"./a": False}, {"bar": "./a.js"}, "a.js"])
    if r.random() < 0.4:
        j["sideEffects"] = r.choice([True, False, ["a.js"], []])
    return j


def small_opts(r):
    o = {}
    if r.random() < 0.5:
        o["cond"] = r.sample(["node", "x", "import"], r.randint(0, 2))
    if r.random() < 0.4:
        o["bf"] = True
    if r.random() < 0.3:
        o["mfields"] = r.choice([["module", "main"], ["main", "module"], []])
    if r.random() < 0.2:
        o["ext"] = r.choice([[".js"], ["", ".js"], [".json", ".js"]])
    if r.random() < 0.1:
        o["pr"] = True
    if r.random() < 0.1:
        o["sym"] = False
    if r.random() < 0.15:
        o["alias"] = [("bar", r.choice(["foo", "./a", None])), ("#x", "./a")][: r.randint(1, 2)]
    return opts(**o)


def small_tree(r, p=0.5):
    t = {f: FILE for f in SMALL_FILES}
    for d in SLOTS:
        if r.random() < p:
            t[d + "/package.json"] = small_desc(r, d)
    return t


def twins(r, t):
    """Packages whose maps have the same parts in another order, or differ in one of them."""
    fld = r.choice(["exports", "exports", "imports"])
    leaf = ["./a.js", "./b.js", "./lib/a.js", None]
    conds = lambda: {k: r.choice(leaf) for k in r.sample(["node", "x", "import", "default"], r.randint(2, 3))}
    if fld == "imports":
        m = {"#x": r.choice([conds(), ["./none.js", "./b.js", "./a.js"], {"node": conds(), "x": conds()}]), "#y": r.choice(leaf), **({"#x*": "./b.js"} if r.random() < 0.3 else {})}
    else:
        m = r.choice([conds(), {".": conds(), "./a": "./b.js"}, {"./a": r.choice(leaf), "./lib": "./b.js", ".": r.choice(leaf)}, ["./none.js", conds(), "./b.js"], {"node": conds(), "x": conds()}])
    ds = r.sample(["/p", "/p/src", "/p/node_modules/foo", "/p/node_modules/bar", "/p/src/node_modules/foo", "/p/src/node_modules/@s/q"], r.randint(2, 4))
    for d in ds:
        v = m
        for _ in range(r.choice([0, 1, 1, 2])):
            v = tweak.shuffled(r, v) if r.random() < 0.6 else tweak.value(r, v, ["./a.js", "./b.js"])
        t[d + "/package.json"] = {"name": "@s/q" if d.endswith("@s/q") else d.rsplit("/", 1)[1], fld: v}
    if fld == "imports":
        return [("/R" + d, q) for d in ds for q in ("#x", "#x", "#xa", "#y")]
    return [("/R" + d, q) for d in ds for n in [t[d + "/package.json"]["name"]] for q in (n, n, n + "/a")] + [("/R/p", "foo"), ("/R/p", "bar"), ("/R/p/src", "foo"), ("/R/p/src", "@s/q")]


def small_call(r):
    if r.random() < 0.25:
        return S("/R" + r.choice(SLOTS + ["/p/src/lib/none", "/p/node_modules/foo/lib/a.js"]))
    return R(*[("/R" + d, q) for d, q in [r.choice(SMALL_CALLS)]][0])


def new_mtime(r, seen):
    cand = [0, 1, 500] + [x + y for x in seen for y in (1000, 1001, 5000)] + [x - y for x in seen for y in (1, 999, 1000, 2000)]
    cand = [m for m in cand if m >= 0 and all(m >= x + 1000 or m < x for x in seen)]
    return r.choice(cand)


def smallfresh(r, id):
    t = small_tree(r)
    start = dict(t)
    o = small_opts(r)
    o2 = small_opts(r) if r.random() < 0.6 else o
    res = [{**o, "cache": 1}, {**o2, "cache": 1}, o, o2]
    calls = [small_call(r) for _ in range(6)]
    mt = {k: [0] for k in t if k.endswith("/package.json")}
    ev = []

    def look(n):
        for c in r.sample(calls, n):
            for a, b in ((1, 3), (2, 4)):
                if a == 2 and r.random() < 0.5:
                    continue
                ev.append({"op": "new", "r": b})
                ev.append({**c, "r": b})
                ev.append(same({**c, "r": a}, len(ev)))

    look(r.randint(3, 6))
    for _ in range(r.randint(2, 5)):
        for _ in range(r.choice([1, 1, 2])):
            d = r.choice(SLOTS)
            k = d + "/package.json"
            x = r.random()
            if k in t and x < 0.3:
                ev.append(RM("/R" + k))
                del t[k]
            elif x < 0.85:
                j = small_desc(r, d)
                old = t.get(k)
                if isinstance(old, dict) and isinstance(j, dict) and old:
                    y = r.random()
                    if y < 0.35:
                        j = {**old, **dict(r.sample(sorted(j.items(), key=str), min(1, len(j))))}
                    elif y < 0.7:
                        fld = r.choice(list(old))
                        j = {**old, fld: tweak.value(r, old[fld], ["./a.js", "./b.js"])}
                seen = mt.setdefault(k, [])
                m = new_mtime(r, seen)
                seen.append(m)
                ev.append(W("/R" + k, j, m))
                t[k] = j
            else:
                f = r.choice(SMALL_FILES)
                if f in t:
                    ev.append(RM("/R" + f))
                    del t[f]
                else:
                    ev.append({"op": "write", "t": "f", "p": "/R" + f})
                    t[f] = FILE
        look(r.randint(3, 6))
    return scenario(id, start, ev, res)


def smallhistory(r, id):
    t = small_tree(r, 0.6)
    spread(r, t, r.randint(0, 3))
    o = small_opts(r)
    calls = [small_call(r) for _ in range(8)]
    if r.random() < 0.25:
        qs = twins(r, t)
        calls[:6] = [R(*r.choice(qs)) for _ in range(6)]
        o["cond"] = r.sample(["node", "x", "import"], r.randint(1, 3))
    ev = [{**c, "r": 2} for c in calls]
    order = [r.randrange(8) for _ in range(24)]
    for n, i in enumerate(order):
        ev.append(same(calls[i], i + 1))
    for i in r.sample(range(8), 5):
        ev.append({"op": "new", "r": 2})
        ev.append(same({**calls[i], "r": 2}, i + 1))
    return scenario(id, t, ev, [o, o])


def smallshared(r, id):
    t = small_tree(r, 0.6)
    ks = spread(r, t, 3)
    if ks and r.random() < 0.3:
        m = r.choice([{"node": "./a.js", "x": "./b.js"}, {"default": "./a.js"}, "./a.js"])
        t[r.choice(ks)]["exports"] = m
        t[r.choice(ks)]["imports"] = m
    qs = twins(r, t) if r.random() < 0.2 else []
    for d in SLOTS:
        if not qs and r.random() < 0.2:
            t[d + "/pkg.json"] = small_desc(r, d)
    n = r.randint(2, 4)
    res = []
    for _ in range(n):
        o = small_opts(r)
        if r.random() < 0.3:
            o["df"] = r.choice(["pkg.json", ""])
        res.append(o)
    both = [{**o, "cache": 1} for o in res] + res
    calls = [R(*r.choice(qs)) if qs and r.random() < 0.7 else small_call(r) for _ in range(6)]
    ev = []
    for _ in range(20):
        c, i = r.choice(calls), r.randint(1, n)
        ev.append({**c, "r": n + i})
        ev.append(same({**c, "r": i}, len(ev)))
    return scenario(id, t, ev, both)


# --------------------------------------------------------------------------- long ways to a file
def chain_of(kind, r, id):
    """A chain of up to 30 rewrites, of which a circle of rewrites must be told apart."""
    n = r.choice([1, 2, 3, 8, 14, 15, 16, 17, 18, 24, 29, 30, r.randint(1, 30)])
    t, o = {"/p/x.js": FILE, "/p/index.js": FILE}, {}
    ends = r.random() < 0.85                             # otherwise in a circle, or at nothing
    last = r.choice(["./x", "./x.js", "."]) if ends else r.choice(["c0", "./none", "none"])
    order = list(range(n))
    ev = []
    if kind == "alias":
        r.shuffle(order)
        o["alias"] = [(f"c{i}-", f"c{i + 1}-" if i + 1 < n else last) for i in order]
        ev = [R("/R/p", f"c{i}-") for i in {0, n // 2, n - 1}] + [R("/R/p", "c0-?q#f")]
        o["pr"] = n < 15 and r.random() < 0.3
    elif kind == "imports":
        r.shuffle(order)
        j = {f"#c{i}": f"#c{i + 1}" if i + 1 < n else r.choice(["./x.js", "foo", "./none.js"]) if ends else "#c0" for i in order}
        t["/p/package.json"] = {"imports": j}
        t["/p/node_modules/foo/index.js"] = FILE
        ev = [R("/R/p", f"#c{i}") for i in {0, n // 2, n - 1}] + [R("/R/p", "#c0?q")]
    elif kind == "main":
        for i in range(n):
            t[f"/p/d{i}/package.json"] = {"main": f"../d{i + 1}" if i + 1 < n else "../x" if ends else r.choice(["../none", "../d0", "."])}
            if r.random() < 0.1:
                t[f"/p/d{i}/index.js"] = FILE
        ev = [R("/R/p", f"./d{i}") for i in {0, n // 2, n - 1}]
    else:
        r.shuffle(order)
        t["/p/package.json"] = {"browser": {f"./c{i}.js": f"./c{i + 1}.js" if i + 1 < n else (r.choice(["./x.js", "foo", False]) if ends else "./c0.js") for i in order}}
        t["/p/node_modules/foo/index.js"] = FILE
        t.update({f"/p/c{i}.js": FILE for i in range(n) if r.random() < 0.5})
        o["bf"] = True
        ev = [R("/R/p", f"./c{i}" + r.choice(["", ".js"])) for i in {0, n // 2, n - 1}]
    return scenario(id, t, ev, [opts(**o)])


def aliaschain(r, id):
    return chain_of("alias", r, id)


def importschain(r, id):
    return chain_of("imports", r, id)


def mainchain(r, id):
    return chain_of("main", r, id)


def browserchain(r, id):
    return chain_of("browser", r, id)


def forks_of(n, r, id):
    """Every level offers several rewrites, so that the ways through n levels are exponentially many."""
    kind = r.choice(["alias", "grow", "main", "both", "modules"])
    w = r.choice([2, 2, 3]) if n < 7 else 2
    t, o = {"/p/x.js": FILE}, {}
    last = r.choice(["./x", "./none"])
    d, req = "/R/p", "c0-"
    if kind in ("alias", "grow"):
        o["alias"] = [(f"c{i}-", (f"c{i + 1}-" if i + 1 < n else r.choice([last, "./none"])) + (str(k) if kind == "grow" and i + 1 < n else "")) for i in range(n) for k in range(w)]
        if r.random() < 0.5:
            r.shuffle(o["alias"])
    else:
        o["mfields"] = ["main", "module", "other"][:w]
        for i in range(n):
            t[f"/p/d{i}/package.json"] = {f: (f"../d{i + 1}" if i + 1 < n else "../" + r.choice([last, "none"])) for f in o["mfields"]}
        req = "./d0"
        if kind == "both":
            o["alias"] = [("e-", "./d0"), ("e-", "./d0/"), ("./d1", "./d2")][:r.randint(1, 3)]
            req = "e-"
        if kind == "modules":
            t["/p/node_modules/foo/package.json"] = {f: "../../d0" for f in o["mfields"]}
            req = "foo"
    return scenario(id, t, [R(d, req), R(d, req + "?q")][:1 if n > 6 else 2], [opts(**o)])


def forks(r, id):
    """Few enough ways to try them all."""
    return forks_of(r.randint(1, 6), r, id)


def forest(r, id):
    """More ways than can be tried."""
    return forks_of(r.choice([8, 12, 16, 20, 25, 30, 31, 32, 33, 40]), r, id)


# --------------------------------------------------------------------------- C22: a tree with links and its copy
def follow(t, p, depth=0):
    """The path without links of p in tree t, or None."""
    if depth > 20:
        return None
    cur = ""
    parts = [x for x in p.split("/") if x]
    for i, x in enumerate(parts):
        if x == "..":
            cur = cur.rsplit("/", 1)[0] if cur else ""
            continue
        cur += "/" + x
        if isinstance(t.get(cur), Link):
            to = t[cur].to
            to = to if to.startswith("/") else cur.rsplit("/", 1)[0] + "/" + to
            return follow(t, to + "/" + "/".join(parts[i + 1:]), depth + 1)
    return cur


class Knot(Exception):
    pass


def expand(t, src, dst, out, seen=()):
    """Copies what src stands for to dst."""
    real = follow(t, src)
    if real is None or not (real in t or real + "/" in t or any(k.startswith(real + "/") for k in t)):
        return
    if real in t and not isinstance(t[real], Link):
        out[dst] = t[real]
        return
    if real in seen or len(out) > 120:
        raise Knot()
    out[dst + "/"] = None
    names = {k[len(real) + 1:].split("/")[0] for k in t if k.startswith(real + "/")} - {""}
    for n in sorted(names):
        expand(t, f"{real}/{n}", f"{dst}/{n}", out, seen + (real,))


def linkcopy(r, id):
    while True:
        w = World(r, prof(nm=1.3, links=0.0, bare=0.5, main=0.4, exports=0.12, deepnm=0.4, oext=0.1, messy=0.0, junkmain=0.0, osym=0.3, bf=0.1, obf=0.15, omfd=0.1, qf=0.03, imports=0.1, internal=0.06))
        w.build()
        # a pnpm layout: packages live in a store, node_modules holds links
        pk = sorted({k[: k.index("/node_modules/") + 14] + "/".join(k[k.index("/node_modules/") + 14:].split("/")[:2 if k[k.index("/node_modules/") + 14] == "@" else 1]) for k in w.t if "/node_modules/" in k})
        for i, d in enumerate(pk):
            if r.random() < 0.6 and any(k.startswith(d + "/") for k in w.t) and d not in w.t:
                store = f"/p/node_modules/.store/s{i}/node_modules/" + d.split("/node_modules/", 1)[1]
                if any(k == store or store.startswith(k + "/") for k in w.t if not k.endswith("/")):
                    continue
                for k in [k for k in w.t if k.startswith(d + "/")]:
                    w.t[store + k[len(d):]] = w.t.pop(k)
                w.t[d] = Link("/R/x" + store) if r.random() < 0.5 else Link("../" * (d.count("/") - 1) + store[1:])
        # any other directory or file may be kept elsewhere too
        for i in range(r.choice([0, 1, 1, 2, 3])):
            ps = sorted({"/".join(k.rstrip("/").split("/")[:n]) for k in w.t for n in range(2, len(k.split("/")) + 1)} - {"", "/p"})
            ps = [p for p in ps if not any(isinstance(v, Link) and (k == p or k.startswith(p + "/") or p.startswith(k + "/")) for k, v in w.t.items())]
            scopes = [p for p in ps if p.rsplit("/", 1)[1] in ("node_modules", "package.json") or p.rsplit("/", 1)[1].startswith("@")]
            if not ps:
                break
            p = r.choice(scopes) if scopes and r.random() < 0.5 else r.choice(ps)
            to = f"/p/kept{i}/" + p.rsplit("/", 1)[1]
            for k in [k for k in w.t if k.rstrip("/") == p or k.startswith(p + "/")]:
                w.t[to + k[len(p):]] = w.t.pop(k)
            w.t[p] = Link("/R/x" + to) if r.random() < 0.4 else Link("../" * (p.count("/") - 1) + to[1:])
        w.links()
        t = {"/x" + k: (Link(v.to.replace("/R/", "/R/x/", 1)) if isinstance(v, Link) and not v.to.startswith("/R/x/") and v.to.startswith("/R/") else v) for k, v in w.t.items()}
        flat = {("/R" + k): (Link(v.to) if isinstance(v, Link) else v) for k, v in t.items()}
        out = {}
        try:
            expand(flat, "/R/x", "/R/y", out)
        except Knot:
            continue
        if not any(isinstance(v, Link) for v in t.values()):
            continue
        break
    copy = {k[2:]: v for k, v in out.items()}
    linked = [k for k, v in w.t.items() if isinstance(v, Link)]
    ds = sorted({k[len("/R/y"):].rstrip("/").rsplit("/", 1)[0] for k in out if k.rstrip("/") != "/R/y"} - {""})
    inside = [d for d in ds if any(d == l or d.startswith(l + "/") for l in linked)]
    v = World(r, w.f)                         # requests are drawn as for the copy, so they go through links
    v.t = {k[len("/R/y"):]: x for k, x in out.items() if k.rstrip("/") != "/R/y"}
    v.t = {k: x for k, x in v.t.items() if not k.endswith("/")} or {"/p/a.js": FILE}
    ev = []
    o = w.options()
    for _ in range(12):
        d = r.choice(inside) if inside and r.random() < 0.4 else r.choice(ds) if ds and r.random() < 0.6 else r.choice(["/p", "/p/src"])
        q = v.request("/R" + d)
        if q.startswith("/") or ".." in q:
            if not q.startswith("/R/p"):
                continue
            if ".." in q:
                continue
            q2, q1 = "/R/y" + q[2:], "/R/x" + q[2:]
        else:
            q1 = q2 = q
        ev.append(R("/R/x" + d, q1))
        ev.append(same(R("/R/y" + d, q2), len(ev)))
    if not ev:
        ev = [R("/R/x/p", "./a")]
    return scenario(id, {**t, **copy}, ev, [o])


# --------------------------------------------------------------------------- C02
KN = ["a", "b", "#a", "#b", "#a/x", "./x", "./d", ".", "./", "..", "../m", "@s/p", "@s", "a/x", "b/x", "./d/x", "x", "", "aa", "ab", "./x.js", "/R/m", "/R/m/x", "d", "@", "#", "./none", "none"]


def knots(r, id):
    """Rewrites of every kind that lead into each other."""
    def name():
        return r.choice(KN)

    def pattern():
        return r.choice(["#*", "#a/*", "#a*", "#a/", "#b/", "#b/*"]), r.choice(["#*x", "#*", "#a/*", "#b/*", "#a/*/*", "#b/*.js", "#a/b/", "#a/", "#b/", "a/*", "./*", "./d/", "b/", "*", "#*/*/*"])

    def imports():
        m = {r.choice(["#a", "#b", "#a/x", "#x"]): name() for _ in range(r.randint(1, 3))}
        for _ in range(r.randint(0, 2)):
            k, v = pattern()
            m[k] = v
        for k in list(m):
            if r.random() < 0.15:
                m[k] = r.choice([[m[k], name()], {"node": m[k], "default": name()}, {"x": name(), "default": m[k]}])
        return m

    def desc(nm):
        j = {"name": r.choice([nm, "a", "b", "@s/p", "@s"])}
        if r.random() < 0.6:
            j["main"] = r.choice([".", "./", "./d", "../d", "..", "../..", "./x", "d", "../a", "./node_modules/a", "x", "../b", "d/..", "./d/../d", "", "/"])
        if r.random() < 0.2:
            j["module"] = r.choice([".", "./d", "../d", "..", "./x", "../a"])
        if r.random() < 0.6:
            j["browser"] = {name(): (name() if r.random() < 0.9 else False) for _ in range(r.randint(1, 4))}
        if r.random() < 0.6:
            j["imports"] = imports()
        if r.random() < 0.35:
            j["exports"] = r.choice(["./x.js", {"./*": "./*"}, {".": "./d", "./x": "./x.js"}, {"./x": ["./none", "./x.js"]}, {"./": "./"}, {"./*": "./*/*"}, {".": "."}, {"./d": "./d/"}])
        return j

    t = {"/m/x.js": FILE, "/m/d/y.js": FILE}
    for d, nm in (("/m", "a"), ("/m/d", "b"), ("/m/node_modules/a", "a"), ("/m/node_modules/b", "b"), ("/m/node_modules/@s/p", "@s/p"), ("/m/d/node_modules/a", "a"), ("", "@s")):
        if r.random() < 0.6:
            t[d + "/package.json"] = desc(nm)
        if r.random() < 0.3:
            t[d + "/index.js"] = FILE
        if r.random() < 0.3 and d != "/m":
            t[d + "/x.js"] = FILE
    if r.random() < 0.25:
        t["/m/node_modules/" + r.choice(["c", "d", "x"])] = Link(r.choice(["/R/m", "..", "a", "/R/m/node_modules", "c"]))
    ts = ""
    if r.random() < 0.3:
        ts = "/R/m/tsconfig.json"
        for p in ("/m/tsconfig.json", "/m/base.json", "/m/d/base.json"):
            j = {"compilerOptions": {"baseUrl": r.choice([".", "./d", "..", "x"]), "paths": {r.choice(["*", "a", "a*", "#*", "./*", "b/*"]): [r.choice(["*", "./*", "./x", "d/*", "*/*", "../m/*", "a"]) for _ in range(r.randint(0, 2))] for _ in range(r.randint(1, 3))}}}
            if r.random() < 0.7:
                j["extends"] = r.choice(["./base", "./base.json", "./tsconfig", "./d/base.json", "../tsconfig.json", "../base", "a", "#a", "./d", ".", "@s/p", "./tsconfig.json?q", "x"])
            if r.random() < 0.9:
                t[p] = j
    res = []
    for _ in range(2):
        o = dict(bf=r.random() < 0.6, pr=r.random() < 0.35, sym=r.random() < 0.8, ts=ts)
        o["alias"] = [(r.choice(["a", "b", "./", ".", "#a", "#", "@s", "@", "", "./a", "./x", "x", "aa", "../", "/R/m", "/"]), r.choice(KN + [None] * 2)) for _ in range(r.choice([0, 0, 1, 2, 3, 4]))]
        if r.random() < 0.2:
            o["mfiles"] = r.choice([["index", "."], [".", "index"], ["../m", "index"], ["d", "x"], ["", "x"]])
        if r.random() < 0.2:
            o["mfields"] = r.choice([["module", "main"], ["main", "main"], ["name", "main"], ["browser", "main"], ["exports", "main"]])
        if r.random() < 0.2:
            o["ext"] = r.choice([["", ".js"], [""], ["/"], ["/x.js"], ["/..", ".js"], ["js"], ["/index.js", ".js"]])
        res.append(opts(**o))
    ev = []
    for _ in range(14):
        d = "/R" + r.choice(["/m", "/m", "/m/d", "", "/m/node_modules/a", "/m/node_modules/b", "/m/d/node_modules/a", "/m/x.js", "/m/none"])
        ev.append(R(d, r.choice(KN) + r.choice(["", "", "", "/x", "?q", "#f"]), r.randint(1, 2)))
    return scenario(id, t, ev, res)


def junktext(r):
    x = r.random()
    if x < 0.5:
        return "".join(r.choice(["a", "b", "/", "/", ".", ".", "..", "#", "?", "@", "*", "$", "-", "é", "日", "\\", ":", " ", "%", "\t", "~", "foo", "x", "&", "\u200d", "🦀"]) for _ in range(r.randint(0, 8)))
    if x < 0.7:
        return r.choice(["./", "../", "/", "#", "@", "@/", "foo/", "@s/", "#/", ".//"]) + junktext(r)
    if x < 0.72:
        return r.choice(["a", "/", "./", "../", "#", "?", "@", "é", "日/", "*"]) * r.choice([40, 300, 5000])
    return r.choice(["foo", "@s/p", "./x", "é/日", "./é", "#é", "*", "/R/m", "/R/m/x", "..", ".", "", "a*b*c", "./*", "#*", "$1", "$&", "${a}", "C:\\x", "//x", "\\\\x", "file:///R/m/x.js", "node:fs", "http://x/y", "data:text/javascript,1"])


def junkvalue(r, depth=0):
    x = r.random()
    if x < 0.35 or depth > 3:
        return junktext(r)
    if x < 0.5:
        return r.choice([None, True, False, 0, -1, Raw(["raw", "1.5e300"]), Raw(["raw", "1e999"]), Raw(["raw", "-0"]), 123456789012345678901234567890 if False else 7, Raw(["raw", "12345678901234567890123"])])
    if x < 0.65:
        return [junkvalue(r, depth + 1) for _ in range(r.randint(0, 3))]
    return {r.choice([junktext(r), ".", "./" + junktext(r), "#" + junktext(r), "default", "node", "import", "./*", "#*", "./x/", "#x/", "é", "./é*", "./日/"]): junkvalue(r, depth + 1) for _ in range(r.randint(0, 4))}


def junkfile(r):
    x = r.random()
    if x < 0.12:
        return Raw(["hex", r.choice(["", "ff", "efbbbf7b7d", "7b7d00", "7b226e616d65223a22c328227d", "fffe7b007d00", "7b7d7b7d", "20", "7b2261223a317d0a2f2f63", "22"])])
    if x < 0.18:
        k = r.choice(["exports", "imports", "browser", "name", "sideEffects", "x", "main"])
        n = r.choice([50, 120, 127, 128, 200, 5000])
        return Raw(["raw", '{"%s":' % k + ('{"node":' * n + '"./x.js"' + "}" * n if r.random() < 0.5 else "[" * n + "]" * n) + "}"])
    if x < 0.22:
        return Raw(["raw", r.choice(['{"name":"a","name":"b"}', '{"exports":"./x.js","exports":{"./a":"./x.js"}}', "{'a':1}", '{"a":1,}', '/*c*/{}', '{"name":"\\u0000"}', '{"main":"\\ud800"}', '{"main":"\\u0000x"}', '{"exports":{"":"./x.js"}}', '{"imports":{"#":"./x.js"}}'])])
    if x < 0.3:
        return junkvalue(r)
    j = {}
    for k in ("name", "main", "module", "browser", "exports", "imports", "sideEffects", "type"):
        if r.random() < 0.45:
            j[k] = junkvalue(r)
    return j


def junk(r, id):
    """Any text as request, option and field; any bytes as description and tsconfig."""
    t = {"/m/x.js": FILE, "/m/é": FILE, "/m/日/x.js": FILE, "/m/node_modules/foo/x.js": FILE, "/m/node_modules/foo/é.js": FILE, "/m/node_modules/@s/p/x.js": FILE, "/m/a*b": FILE}
    for d in ("/m", "/m/node_modules/foo", "/m/node_modules/@s/p", "/m/node_modules/@s", "/m/日", ""):
        if r.random() < 0.6:
            t[d + "/package.json"] = junkfile(r)
    ts = ""
    if r.random() < 0.3:
        ts = r.choice(["/R/m/tsconfig.json", "/R/m/tsconfig.json", "/R/m/none.json", "/R/m", "tsconfig.json", "/R/m/x.js"])
        y = r.random()
        t["/m/tsconfig.json"] = junkfile(r) if y < 0.2 else {"extends": junkvalue(r), "compilerOptions": junkvalue(r)} if y < 0.4 else \
            {**({"extends": junktext(r)} if r.random() < 0.4 else {}), "compilerOptions": {"baseUrl": junkvalue(r) if r.random() < 0.3 else ".", "paths": {junktext(r): [junktext(r) for _ in range(r.randint(0, 2))] for _ in range(r.randint(0, 3))} if r.random() < 0.8 else junkvalue(r)}}
    res = []
    for _ in range(2):
        o = dict(bf=r.random() < 0.5, pr=r.random() < 0.3, sym=r.random() < 0.7, ts=ts)
        if r.random() < 0.4:
            o["alias"] = [(junktext(r), junktext(r) if r.random() < 0.85 else None) for _ in range(r.randint(1, 3))]
        if r.random() < 0.3:
            o["ext"] = [junktext(r) if r.random() < 0.5 else ".js" for _ in range(r.randint(0, 3))]
        if r.random() < 0.3:
            o["mfiles"] = [junktext(r) for _ in range(r.randint(0, 3))]
        if r.random() < 0.3:
            o["mfields"] = r.sample(["name", "main", "module", "browser", "exports", "imports", "sideEffects", "é", ""], 3)
        if r.random() < 0.1:
            o["df"] = r.choice(["", "x.js", "../package.json", "é", ".", "/", "node_modules/foo/x.js", junktext(r)])
        if r.random() < 0.2:
            o["cond"] = [junktext(r) for _ in range(2)] + ["default", "node"][: r.randint(0, 2)]
        if r.random() < 0.2:
            o["enf"] = r.choice(["true", "false"])
        res.append(opts(**o))
    def where():
        return r.choice(["/R/m", "/R/m", "/R/m/node_modules/foo", "/R", "/R/m/日", "/R/m/none", "/R/m/x.js", "", ".", "..", "/", "//", "m", junktext(r), "/R/m/" + junktext(r), "/R/../" + junktext(r)])

    ev = []
    for _ in range(16):
        k = r.randint(1, 2)
        x = r.random()
        if x < 0.1:
            ev.append(S(where(), k))
        elif x < 0.13:
            ev.append({"op": "normalize", "d": where()})
        elif x < 0.15:
            ev.append({"op": "builtin", "q": junktext(r)})
        elif x < 0.4:
            ev.append(R(where(), r.choice(["foo", "foo/", "@s/p/", "#", "./", "foo/x", "@s/p/x.js"]) + junktext(r), k))
        else:
            ev.append(R(where(), junktext(r), k))
    return scenario(id, t, ev, res)


def deep(r, id):
    """Long or deep where it is least expected: segments, nesting, chains, numbers."""
    n = r.choice([600, 3000, 8000, 12000])
    k = r.choice([200, 3000, 12000])
    seg = r.choice(["a/", "a/", "b/", "../", "é/", "./", "foo/", "node_modules/"])
    long = seg * n
    t = {"/m/x.js": FILE, "/m/a/x.js": FILE, "/m/node_modules/foo/x.js": FILE, "/m/node_modules/foo/a/x.js": FILE}
    star = r.choice(["", "*"])

    def nest(key):
        return Raw(["raw", '{"%s":' % key + r.choice(["[" * k + "]" * k, '{"node":' * k + '"./x.js"' + "}" * k, "[" * k, '{"node":' * k, "[[]," * k + "0" + "]" * k]) + "}"])

    def long_map(mark):
        key = seg * r.choice([n, 60000])
        return {mark + key + "x" + star: "./x.js", mark + "a/" * 3 + star: "./" + long + star, mark + "y*": "./" + long + "*"}

    def chain(mark):
        return {f"{mark}c{i}": f"{mark}c{i + 1}" for i in range(r.choice([100, 2000, 40000]))}

    x = r.random()
    t["/m/package.json"] = {"imports": long_map("#")} if x < 0.2 else {"imports": chain("#")} if x < 0.3 else {"browser": chain(r.choice(["", "./"]))} if x < 0.5 else nest(r.choice(["imports", "browser", "x", "main"])) if x < 0.6 else \
        {"main": r.choice([long, "./" + long + "x"])} if x < 0.7 else {}
    x = r.random()
    t["/m/node_modules/foo/package.json"] = {"exports": long_map("./")} if x < 0.3 else nest("exports") if x < 0.4 else {"main": long} if x < 0.6 else {"name": long, "browser": {"./" + long: "./x.js"}}
    ts = ""
    if r.random() < 0.4:
        ts = "/R/m/tsconfig.json"
        num = r.choice(["1e+999", "-1e+400", "9" * 400, "1e+99999999999999999999", "0.1e-999", "1E+309", "1.7e+308"])
        t["/m/tsconfig.json"] = r.choice([nest("x"), nest("compilerOptions"), nest("extends"), Raw(["raw", '{"compilerOptions":{"baseUrl":"."},"x":%s}' % num]), Raw(["raw", '{"compilerOptions":{"baseUrl":".","paths":{"*":[%s]}}}' % num]), Raw(["raw", "[%s]" % num]), Raw(["raw", num]),
                                          Raw(["raw", "/*" * k]), Raw(["raw", '{"a":"' + "[" * k + '","compilerOptions":{"baseUrl":"' + "[" * k + '"}}']), {"extends": "./" + long}, {"compilerOptions": {"baseUrl": long, "paths": {"*": ["./*", long + "*"]}}}])
    res = []
    for _ in range(2):
        o = dict(bf=r.random() < 0.6, pr=r.random() < 0.2, sym=r.random() < 0.5, ts=ts)
        if r.random() < 0.3:
            o["alias"] = r.choice([[(f"c{i}", f"c{i + 1}") for i in range(300)], [("c", long)], [("c0", "./" + long), ("c0", "foo/" + long)]])
        res.append(opts(**o))
    ev = []
    for _ in range(5):
        d = r.choice(["/R/m", "/R/m", "/R/m/" + long, "/R/m/" + long, "/R/m/node_modules/foo/" + long])
        q = r.choice(["./x", "foo", "c0", "./c0", "#c0", "foo/y" + seg * 9, "." if r.random() < 0.5 else "a"]) if len(d) > 99 else r.choice(["./" + long, "../" * n + "x", long, "foo/" + long + "x", "#" + long + "x", "foo", "foo/a/a/a/", "c0", "./c0", "#c0", "/R/m/" + long, "." + "/" * n + "x", "foo/y" + long, "?" + long, "@" + long, "."])
        ev.append(S(d, r.randint(1, 2)) if r.random() < 0.15 else {"op": "normalize", "d": "/R/m/" + long} if r.random() < 0.05 else R(d, q, r.randint(1, 2)))
    return scenario(id, t, ev, res)


# --------------------------------------------------------------------------- C22: lexical normalisation
def normal(r, id):
    ev = []
    for _ in range(20):
        p = "/".join(r.choice(["a", "b", "..", "..", ".", "", "...", ".a", "a.", "é", "..a", "a b"]) for _ in range(r.randint(0, 7)))
        ev.append({"op": "normalize", "d": "/" + p})
    for q in r.sample(BUILTIN_NAMES, 6):
        ev.append({"op": "builtin", "q": q})
    return scenario(id, {"/p/a.js": FILE}, ev)


def drives(r, id):
    """C23: what starts with a drive letter, and what only looks like it."""
    names = ["c:", "c:/a", "cc:/a", "c:a", "1:", "é:/a", "/c:/a", "c", "c:\\a", "a"]
    t = {f"/p/node_modules/{n}.js": FILE for n in names if not n.startswith("/") and r.random() < 0.4}
    t["/p/node_modules/c:/index.js"] = FILE
    t.pop("/p/node_modules/c:.js", None)
    t["/p/a.js"] = FILE
    letters = r.sample("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", 13) + ["1", "é", "ab", "_", ""]
    ev = []
    for c in letters:
        for tail in r.sample([":", ":/", ":\\", ":/a", ":\\a", ":a", ":/a/b.js", "::", ":.", "/:", ":?q", ":#f"], 4):
            if r.random() < 0.55:
                for n in ("", ".js"):
                    f = f"/p/node_modules/{c}{tail}{n}"
                    if r.random() < 0.6 and not tail.endswith("/") and f not in t and not any(k.startswith(f + "/") or f.startswith(k + "/") for k in t) and "//" not in f and ".." not in f and "/./" not in f and "/:" not in f and "?" not in f and "#" not in f and not f.endswith("/."):
                        t[f] = FILE
            ev.append(R("/R/p", r.choice(["", "", "", "", "x", "/", "./", "a/", "foo/"]) + c + tail))
    return scenario(id, t, ev, [opts(pr=r.random() < 0.15)])


def defaults(r, id):
    """C27: resolver 1 has every option spelled out, 2 only those that differ from the defaults; 3 is Resolver::default()."""
    f = P({**PR["C21"], "badmap": 0.02, "badjson": 0.02, "ots": 0.15, "df": 0.15})
    w = World(r, f)
    w.build()
    if f["ots"]:
        w.tsconfigs()
    o = w.options()
    for k in r.sample(sorted(DEFAULTS), r.choice([0, 3, 8, 12])):
        o[k] = DEFAULTS[k]
    if o["alias"] and r.random() < 0.5:
        o["alias"] = []
    res = [o, {**o, "dflt": 1}, {**opts(), "dflt": 2}, {**opts(), "dflt": 1}]
    ev = []
    for _ in range(8):
        c = S(w.importer()) if r.random() < 0.1 else R(*w.call())
        ev += [c, same({**c, "r": 2}, len(ev) + 1), {**c, "r": 3}, {**c, "r": 4}]
    return styled(r, f, scenario(id, w.t, ev, res))


BUILTIN_NAMES = ["fs", "fs/promises", "assert", "assert/strict", "node:fs", "Fs", "fs/", "f", "", "path", "path/posix", "path/win32", "zlib", "_http_agent", "_stream_wrap", "worker_threads", "util/types", "utils",
                 "stream/web", "stream/consumers", "test", "sys", "punycode", "constants", "fs/promise", "wasi", "dns/promises", "inspector", "inspector/promises", "timers/promises", "readline/promises", "v8", "vm",
                 "_tls_wrap", "_tls_common", "_http_common", "_http_client", "_http_incoming", "_http_outgoing", "_http_server", "_stream_duplex", "_stream_passthrough", "_stream_readable", "_stream_transform",
                 "_stream_writable", "async_hooks", "buffer", "child_process", "cluster", "console", "crypto", "dgram", "diagnostics_channel", "dns", "domain", "events", "http", "http2", "https", "module", "net", "os",
                 "perf_hooks", "process", "querystring", "readline", "repl", "stream", "stream/promises", "string_decoder", "timers", "tls", "trace_events", "tty", "url", "util"]


# --------------------------------------------------------------------------- C20
def race_world(r):
    """A world in which each call depends on one field of one description, and the contents that replace it."""
    kind = r.choice(["side", "side", "main", "exports", "imports", "browser", "bad", "gone", "gone", "nearest"])
    t = {f"/m/d/v{i}.js": FILE for i in range(8)}
    t.update({f"/m/node_modules/foo/v{i}.js": FILE for i in range(8)})
    t.update({"/m/d/index.js": FILE, "/m/d/x.js": FILE, "/m/node_modules/foo/index.js": FILE, "/m/d/e/f/a.js": FILE, "/m/package.json": {"sideEffects": ["m"]}})
    path = "/m/node_modules/foo/package.json" if kind == "exports" or (kind in ("bad", "gone") and r.random() < 0.5) else "/m/d/package.json"
    foo = "foo" in path

    def content(i):
        if kind in ("side", "nearest"):
            return {"sideEffects": [f"v{i}"]}
        if kind == "main" or (kind == "gone" and not foo):
            return {"main": f"./v{i}.js"}
        if kind == "exports" or kind == "gone":
            return {"exports": {".": f"./v{i}.js"}} if i % 2 else {"exports": f"./v{i}.js"}
        if kind == "imports":
            return {"imports": {"#x": f"./v{i}.js"}}
        if kind == "browser":
            return {"browser": {"./x.js": f"./v{i}.js"}}
        if i % 2:
            return r.choice([BAD, {"exports": 3}, []]) if i % 4 == 1 else BAD
        return {"exports": f"./v{i}.js"} if foo else {"main": f"./v{i}.js"}

    calls = {"side": [("s", "/m/d"), ("s", "/m/d/v0.js"), ("s", "/m/d/e/f")], "nearest": [("s", "/m/d"), ("s", "/m/d/e/f"), ("s", "/m/d/none/none")], "main": [("/m", "./d"), ("/m/d/e", "..")],
             "exports": [("/m", "foo"), ("/m/d/e", "foo")], "imports": [("/m/d", "#x"), ("/m/d/e", "#x")], "browser": [("/m/d", "./x"), ("/m/d/e", "../x"), ("/m/d/e/f", "../../x.js")]}
    cs = calls.get(kind) or ([("/m", "foo")] if foo else [("/m", "./d"), ("/m/d/e", "..")])
    gone = kind in ("gone", "nearest")
    return t, path, content, [S("/R" + a[1]) if a[0] == "s" else R("/R" + a[0], a[1]) for a in cs], gone, kind


def race_edits(r, path, content, gone, n, there):
    edits, seen, live = [], [0], there
    for i in range(1, n + 1):
        if gone and live and r.random() < 0.5:
            edits.append(RM("/R" + path))
            live = False
        else:
            m = new_mtime(r, seen)
            seen.append(m)
            edits.append(W("/R" + path, content(i % 8), m))
            live = True
    return edits


def race(r, id, scheduled=True):
    t, path, content, calls, gone, kind = race_world(r)
    there = not gone or r.random() < 0.7
    if there:
        t[path] = content(0)
    o = dict(bf=kind == "browser")
    res = [{**opts(**o), "cache": 1}, {**opts(**o, cond=["x"]), "cache": 1}, opts(**o)]
    ev = []
    if r.random() < 0.6:
        ev += [{**r.choice(calls), "r": r.randint(1, 3)} for _ in range(r.randint(1, 3))]
    nthreads = r.randint(1, 3) if scheduled else r.randint(2, 6)
    ncalls = r.randint(1, 3) if scheduled else r.randint(10, 40)
    lists = [[{**r.choice(calls), "r": r.choice([1, 1, 2, 3])} for _ in range(ncalls)] for _ in range(nthreads)]
    n = r.randint(1, 3) if scheduled else r.randint(2, 6)
    if not scheduled or r.random() < 0.85:
        edits = race_edits(r, path, content, gone, n, there)
    else:
        edits = []
    par = {"op": "par", "t": lists, "edits": edits, **({"sched": []} if scheduled else {}), "rng": r.randint(1, 1 << 30), "gap": r.choice([0, 20, 100])}
    ev.append(par)
    ev += [{**c, "r": k} for c in calls for k in (1, 2, 3)]
    return scenario(id, t, ev, res)


def stress(r, id):
    return race(r, id, scheduled=False)


def crowd(r, id, scheduled=None):
    """Many threads on an unchanged tree, resolvers with different options on one cache."""
    scheduled = r.random() < 0.5 if scheduled is None else scheduled
    if r.random() < 0.5:
        t = small_tree(r, 0.6)
        res = [{**small_opts(r), "cache": 1} for _ in range(2)]
        calls = [small_call(r) for _ in range(6)]
    else:
        w = World(r, P({**PR["C21"], "ots": 0.1, "df": 0.1, "odf": 0.1}))
        w.build()
        w.tsconfigs()
        t = w.t
        res = [{**w.options(), "cache": 1} for _ in range(2)]
        calls = []
        for _ in range(6):
            calls.append(S(w.importer()) if r.random() < 0.2 else R(*w.call()))
    n = r.randint(2, 4) if scheduled else r.randint(4, 12)
    lists = [[{**r.choice(calls), "r": r.randint(1, 2)} for _ in range(r.randint(1, 4) if scheduled else 10)] for _ in range(n)]
    ev = [{"op": "par", "t": lists, "edits": [], **({"sched": []} if scheduled else {}), "rng": r.randint(1, 1 << 30), "gap": 0}]
    ev += [{**c, "r": k} for c in calls[:3] for k in (1, 2)]
    return scenario(id, t, ev, res)


def hammer(r, id):
    """A few calls made over and over by several threads, so that they meet between any two steps."""
    t = small_tree(r, 0.5)
    o = small_opts(r)
    res = [{**o, "cache": 1}]
    for _ in range(r.randint(1, 2)):
        x = r.random()
        res.append({**o, "df": r.choice(["none.json", "pkg.json", ""]), "cache": 1} if x < 0.45 else {**small_opts(r), "cache": 1} if x < 0.8 else {**o, "cache": 1})
    for d in SLOTS:
        if r.random() < 0.15:
            t[d + "/pkg.json"] = small_desc(r, d)
    calls = [small_call(r) for _ in range(r.randint(1, 3))]
    lists = [[{**c, "r": r.randint(1, len(res))} for c in r.sample(calls, r.randint(1, len(calls)))] for _ in range(r.randint(3, 6))]
    ev = [{"op": "par", "t": lists, "edits": [], "rep": 600 // max(len(l) for l in lists), "rng": 1, "gap": 0}]
    ev += [{**c, "r": k + 1} for c in calls for k in range(len(res))]
    return scenario(id, t, ev, res)


# --------------------------------------------------------------------------- C04
def bytes_(r, id):
    """A directory whose name is not UTF-8, at times beside one whose name is what it looks like."""
    s = world(r, P({**PR[r.choice(["C04", "C05", "C06", "C15", "C22", "C03"])], "absolute": 0.0, "odddir": 0.1, "junk": 0.0, "device": 0.0}), id)
    word = r.choice(["p", "p", "src", "lib", "node_modules/foo"])
    pat = re.compile(rf"(?<=/){word}(?=/|$)")
    to = word + r.choice(["\ue0ff", "\ue0c3", "\ue0e2\ue082", "\ue080x"])

    def sub(x):
        return pat.sub(to, x) if x.startswith("/R") else x

    fs = [{**n, "p": sub(n["p"]), **({"to": sub(n["to"])} if "to" in n else {})} for n in s["fs"]]
    if r.random() < 0.4:
        flat = re.sub("[\ue080-\ue0ff]+", "\ufffd", to)
        fs += [{**n, "p": pat.sub(flat, n["p"])} for n in s["fs"] if pat.search(n["p"]) and n["t"] != "l"]
    s["fs"] = [n for i, n in enumerate(fs) if n["p"] not in {m["p"] for m in fs[:i]}]
    s["ev"] = [{**e, "d": sub(e["d"])} for e in s["ev"]]
    for o in s["res"]:
        o["ts"] = sub(o["ts"])
    return s


# --------------------------------------------------------------------------- C24
def deepdf(r, id):
    """The name of the description file leads through a directory, or is written with dots."""
    s = world(r, P({**PR["C24"], "odf": 0.1, "df": 0.3, "links": 0.1}), id, nres=2, side=0.3)
    name = r.choice(["meta/pkg.json", "meta/pkg.json", "meta/x/package.json", "./pkg.json", "src/../pkg.json"])
    sub, base = name.rsplit("/", 1)
    fs, seen = [], {n["p"] for n in s["fs"]}
    for n in s["fs"]:
        if n["p"].endswith("/package.json") and sub not in (".", "src/.."):
            if r.random() < 0.7:
                d = n["p"][: -len("/package.json")]
                at = d
                for x in sub.split("/"):
                    at += "/" + x
                    if at not in seen:
                        seen.add(at)
                        fs.append({"p": at, "t": "d"})
                if f"{at}/{base}" not in seen:
                    fs.append({**n, "p": f"{at}/{base}"})
                    seen.add(f"{at}/{base}")
        fs.append(n)
    s["fs"] = sorted(fs, key=lambda n: n["p"].split("/"))
    for o in s["res"]:
        if r.random() < 0.85:
            o["df"] = name
    return s
