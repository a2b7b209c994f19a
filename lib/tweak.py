"""Small changes to texts and JSON values, so that what is nearly equal occurs next to what is equal."""
import copy

END = ["/", "/.", "/..", ".", "x", "//", "*", "?", "é", " ", ".js", "-b", "/x", "#", "1", "_"]
START = [".", "/", "./", "../", "@", "#", "x", " ", "é", "-"]
SEGS = ["..", "...", ".", "", "node_modules", "..a", "a..", "*", "é", "a b", "$&", "%2e", "A"]


def text(r, s):
    """One small change; what starts with /R stays below /R."""
    if s.startswith("/R"):
        return s + r.choice([e for e in END if ".." not in e and not (s == "/R" and e[0] not in "/")])
    x = r.random()
    if x < 0.4 or not s:
        return s + r.choice(END)
    if x < 0.5:
        return r.choice(START) + s
    i = r.randrange(len(s))
    if x < 0.6:
        return s[:i] + s[i + 1:]
    if x < 0.7:
        return s[:i] + s[i] + s[i:]
    if x < 0.75:
        return s[:i] + s[i].swapcase() + s[i + 1:]
    if x < 0.8 and len(s) > 1:
        i = min(i, len(s) - 2)
        return s[:i] + s[i + 1] + s[i] + s[i + 2:]
    parts = s.split("/")
    i = r.randrange(len(parts))
    if x < 0.9:
        return "/".join(parts[:i] + [r.choice(SEGS)] + parts[i:])
    if x < 0.95:
        return "/".join(parts[:i] + [parts[i]] + parts[i:])
    return "/".join(parts[:i] + [r.choice(SEGS)] + parts[i + 1:])


def leaves(v, at=()):
    if isinstance(v, dict):
        for k in v:
            yield from leaves(v[k], at + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from leaves(x, at + (i,))
    else:
        yield at, v


def dicts(v, at=()):
    if isinstance(v, dict):
        if v:
            yield at
        for k in v:
            yield from dicts(v[k], at + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from dicts(x, at + (i,))


def get(v, at):
    for k in at:
        v = v[k]
    return v


def put(v, at, new):
    if not at:
        return new
    v = copy.deepcopy(v)
    get(v, at[:-1])[at[-1]] = new
    return v


def shuffled(r, v):
    """v with the keys of one of its objects in another order."""
    ds = [at for at in dicts(v) if len(get(v, at)) > 1]
    if not ds:
        return v
    at = r.choice(ds)
    ks = list(get(v, at))
    r.shuffle(ks)
    return put(v, at, {k: get(v, at)[k] for k in ks})


def value(r, v, texts=()):
    """v with one change: a leaf, the order of keys, a key, a level more, a part less."""
    if not isinstance(v, (dict, list, str, bool)) and v is not None:
        return v
    x = r.random()
    ls = list(leaves(v))
    ds = list(dicts(v))
    if x < 0.5 and ls:
        at, old = r.choice(ls)
        others = [o for _, o in ls if o != old] + [t for t in texts if t != old]
        if others and r.random() < 0.7:
            return put(v, at, r.choice(others))
        if isinstance(old, str):
            return put(v, at, text(r, old))
        if isinstance(old, bool):
            return put(v, at, not old)
        return put(v, at, r.choice(["./a.js", None, True]))
    if x < 0.8 and ds:
        at = r.choice(ds)
        d = get(v, at)
        ks = list(d)
        if len(ks) > 1 and x < 0.68:
            r.shuffle(ks)
            return put(v, at, {k: d[k] for k in ks})
        if len(ks) > 1 and x < 0.74:
            a, b = r.sample(ks, 2)
            return put(v, at, {**d, a: d[b], b: d[a]})
        if x < 0.77:
            ks.remove(r.choice(ks))
            return put(v, at, {k: d[k] for k in ks})
        return put(v, at, {k if k != ks[0] else (k[:2] + text(r, k[2:])): d[k] for k in ks})
    if ls:
        at, old = r.choice(ls)
        return put(v, at, [old] if x < 0.9 and not (at and isinstance(at[-1], int)) else {"node": old} if x < 0.95 else {"default": old})
    return v


def padded(r, s):
    """The world with many more entries in its maps, which name nothing."""
    n, front = r.choice([3, 12, 40]), r.random() < 0.7

    def entries(kind, m):
        keys = [k for k, _ in m]
        if kind == "exports" and not all(k.startswith(".") for k in keys):
            return None if any(k.startswith((".", "/")) for k in keys) else [[f"pad{i}", ["s", f"./pad{i}.js"]] for i in range(n)]
        mark = {"exports": "./pad", "imports": "#pad", "browser": "./pad"}[kind]
        return [[f"{mark}{i}", ["s", f"./pad{i}.js"]] for i in range(n)]

    def sub(x):
        if isinstance(x, list):
            return [sub(y) for y in x]
        if not isinstance(x, dict):
            return x
        x = {k: sub(v) if k not in ("j", "q", "d") else v for k, v in x.items()}
        if isinstance(x.get("j"), list) and x["j"][0] == "o":
            fields = []
            for k, v in x["j"][1]:
                if k in ("exports", "imports", "browser") and v[0] == "o" and v[1]:
                    more = entries(k, v[1])
                    if more:
                        v = ["o", more + v[1] if front or not more[0][0].startswith((".", "#")) else v[1] + more]
                fields.append([k, v])
            x["j"] = ["o", fields]
        return x

    return {**s, "fs": sub(s["fs"]), "ev": sub(s["ev"])}
