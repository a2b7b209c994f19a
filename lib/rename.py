"""Other names for the same worlds: one word is replaced wherever it stands, in paths, contents, options and requests."""
import re

WORDS = ["foo", "bar", "lib", "src"]
NAMES = ["a@1", "@at", "a@", "my_node_modules", "node_modules_", "node_modules.x", "mode_modules", "lib.js", "x.json", "..foo", "...", ".dot", "-", "é", "日本", "a b", "%20", "$&", "$1", "index", "main", "default", "node",
         "package", "package.json.js", "a?b", "a#b", "#h", "x*", "A", "C:", "c:x", "con", "js", "constructor", "__proto__", "node:fs", "fs", "http:x", "0", "a" * 40, "a.b.c", "a+b", "(a)", "[a]", "{a}", "a|b", "^", "~a", "a,b", "a;b", "a=b", "a&b", "'a'", "`", " a", "a ", "\ta"]
SCOPES = ["@", "@", "@@", "@a.b", "@é", "@s@t", "@-", "@s "]


PLAIN = [n for n in NAMES if n[0] not in ".#@Cc" and "?" not in n and "#" not in n]

STARS = ["x*", "*", "*x", "a*b"]


def renamed(r, s, names=NAMES):
    text = " ".join(n["p"] for n in s["fs"])
    words = [w for w in WORDS if re.search(rf"/{w}(?![A-Za-z0-9_])", text)]
    if not words:
        return s
    w, to = r.choice(words), r.choice(names)
    if "/@s/" in text and r.random() < 0.25:
        w, to = "@s", r.choice(SCOPES)
    if f"/{to}" in text:
        return s
    pat = re.compile(rf"(?<![A-Za-z0-9_@]){w}(?![A-Za-z0-9_])")

    def sub(x):
        if isinstance(x, str):
            return pat.sub(lambda m: to, x)
        if isinstance(x, list):
            return [sub(y) for y in x]
        if isinstance(x, dict):
            return {k: sub(v) if k in ("p", "j", "to", "d", "q", "alias", "ts", "mfiles", "mfields", "edits") else v for k, v in x.items()}
        return x

    def twice(x):
        """A key given twice: which one counts is not specified."""
        if isinstance(x, dict):
            return any(twice(y) for y in x.values())
        if not isinstance(x, list):
            return False
        if len(x) == 2 and x[0] == "o" and isinstance(x[1], list):
            ks = [y[0] for y in x[1]]
            for y in x[1]:
                if y[0] == "paths" and y[1][0] == "o":            # nor is it for patterns with equal prefixes
                    ps = [z[0].split("*")[0] for z in y[1][1] if "*" in z[0]]
                    if len(set(ps)) < len(ps):
                        return True
            return len(set(ks)) < len(ks) or any(twice(y[1]) for y in x[1])
        return any(twice(y) for y in x)

    t = {**s, "fs": [sub(n) for n in s["fs"]], "res": [sub(o) for o in s["res"]], "ev": [sub(e) for e in s["ev"]]}
    return s if twice([t["fs"], t["ev"]]) else t
