"""Random scenarios.  One world generator; a profile says how often each feature appears.

Names are few and overlap (foo / foo-b / @s/foo, a / a.js / a.js.js, directories named like files),
so that boundaries between them are hit often.
"""
import os, random
import tweak
from scn import *

SEG = ["a", "b", "lib", "src", "a.js", "x.y", ".d"]
FILES = ["a", "b", "a.js", "b.js", "a.json", "a.ts", "b.ts", "a.js.js", "index.js", "index.ts", "index", "main.js", "x.y.js", ".d.js", "lib.js", "b.node"]
PKGS = ["foo", "foo", "foo", "foo", "foo-b", "foo-b", "bar", "bar", "@s/foo", "@s/foo", "@s/foo-b", "@s", "a", "a", "foo@1", "@/foo"]
CONDS = ["node", "import", "require", "x", "browser"]
FIELDS = ["main", "module", "browser", "style"]
ODD = ["a#b.js", "é.js", "a b", "...", "..a", "$&.js", "1:", "*", "a?b.js", "a*b.js", "A.js", "-a", "日本/a.js", "node_modules", "%20", ".js", "a.js.", "~"]
SUFFIXES = ["?q", "#f", "?q#f", "?", "#", "?q/x", "#f/x", "?a#"]
# what a description may hold besides
OTHER = {"version": ["1.0.0", "", 1, None], "type": ["module", "commonjs", ""], "private": [True], "types": ["./a.ts", ""], "dependencies": [{"foo": "*"}, {}], "files": [["a.js"]], "jsnext:main": ["./b.js"], "index": ["./b.js"],
         "directories": [{"lib": "./lib"}], "bin": ["./a.js"], "": ["./a.js"], "default": ["./b.js"], "browserify": [{}], "side-effects": [False], "Exports": ["./a.js"], "Name": ["foo"]}


class P(dict):
    """A profile: probability of each feature, 0 when absent."""

    def __missing__(self, k):
        return 0.0


BASE = P(style=0.1, device=0.02, aimed=0.35, again=0.06, hit=0.8, near=0.06, other=0.04, odd=0.03, nmnm=0.02, pkgjson=0.6, main=0.4, links=0.0, qf=0.1, messy=0.15, name=0.6, bare=0.4, absolute=0.08, nested=0.3, junkmain=0.15)


class World:
    def __init__(self, r, f):
        self.r, self.f, self.t = r, f, {}
        self.aliases = []

    def p(self, k):
        return self.r.random() < self.f[k]

    def pick(self, xs):
        return self.r.choice(xs)

    # ---------------------------------------------------------------- files
    def file(self, p, v=FILE):
        if p in self.t or p + "/" in self.t:
            return
        for q in self.t:                     # no file above a file
            if q.startswith(p + "/") or q == p or (not q.endswith("/") and p.startswith(q + "/")):
                return
        self.t[p] = v

    def fill(self, d, n, deep=2):
        r = self.r
        for _ in range(n):
            x = self.r.random()
            if r.random() < self.f["odd"]:
                self.file(f"{d}/{self.pick(ODD)}")
            elif r.random() < self.f["device"]:
                self.file(f"{d}/{self.pick(FILES)}", DEVICE)
            elif x < 0.65 or deep == 0:
                self.file(f"{d}/{self.pick(FILES)}")
            elif x < 0.7:
                q = f"{d}/{self.pick(SEG)}/"
                if not any(k.startswith(q) or (not k.endswith("/") and q.startswith(k + "/")) for k in self.t):
                    self.t[q] = None
            else:
                self.fill(f"{d}/{self.pick(SEG)}", self.r.randint(1, 2), deep - 1)

    def under(self, d):
        return [k for k in self.t if k.startswith(d + "/") and not k.endswith("/") and not isinstance(self.t[k], Link)]

    def rel(self, d):
        """A path inside d without leading ./, usually that of an existing file."""
        r = self.r
        inside = [k[len(d) + 1:] for k in self.under(d) if "package.json" not in k and "node_modules" not in k]
        x = r.random()
        if r.random() < self.f["odd"]:
            return r.choice(ODD)
        if inside and x < 0.75:
            p = r.choice(inside)
            y = r.random()
            if y < 0.3:
                for e in (".js", ".json", ".ts", ".node"):
                    if p.endswith(e):
                        p = p[: -len(e)]
                        break
            elif y < 0.45 and "/" in p:
                p = p.rsplit("/", 1)[0]
            return p or "a"
        if x < 0.9:
            return "/".join(r.choice(SEG) for _ in range(r.randint(1, 2)))
        return r.choice(FILES)

    def messy(self, p):
        r = self.r
        if not self.p("messy"):
            return p
        x = r.random()
        if x < 0.3:
            return p + "/"
        parts = p.split("/")
        i = r.randint(0, len(parts))
        if x < 0.5:
            return "/".join(parts[:i] + ["."] + parts[i:])
        if x < 0.8:
            return "/".join(parts[:i] + [r.choice(["zz", "a", "lib"]), ".."] + parts[i:])
        if i and x < 0.9:
            return "/".join(parts[:i] + [""] + parts[i:])
        return "/".join(parts[:i] + [".."] + parts[i:])

    # ---------------------------------------------------------------- description fields
    def target(self, d, imports=False):
        r = self.r
        x = r.random()
        if x < self.f["badtarget"]:
            return r.choice(["../a.js", "./../a.js", "./x/../../a.js", ".//../a.js", "./a/..//../../a.js", "/a.js", "", ".", "./", "a.js",
                             "./node_modules/foo/index.js", "./.d/../../b.js", "./..", "./..a/../b.js", "./../" + d.rsplit("/", 1)[1] + "/a.js"])
        if imports and x < 0.3:
            return r.choice(PKGS) + ("" if r.random() < 0.5 else "/" + self.rel(d))
        if imports and x < 0.4:
            return "#" + r.choice(["a", "b", "c", "lib/a"])
        p = "./" + self.messy(self.rel(d) if r.random() < 0.35 else self.existing(d))
        if r.random() < self.f["qf"]:
            p += r.choice(["?t", "#t", "?t#u"])
        return p

    def existing(self, d):
        inside = [k[len(d) + 1:] for k in self.under(d) if "package.json" not in k and "node_modules" not in k]
        return self.pick(inside) if inside else "a.js"

    def mapping(self, d, form, depth=0, imports=False):
        """A value for a key of the given form (exact, folder, pattern)."""
        r = self.r
        x = r.random()
        if depth < 3 and x < self.f["cond"]:
            ks = r.sample(CONDS, r.randint(1, 3))
            if r.random() < 0.5:
                ks.append("default")
            if r.random() < 0.07:
                r.shuffle(ks)
            return {k: self.mapping(d, form, depth + 1, imports) for k in ks}
        if depth < 2 and x < self.f["cond"] + self.f["arr"]:
            return [y for y in (self.mapping(d, form, 2, imports) for _ in range(r.randint(0, 3))) if not isinstance(y, list)]
        if r.random() < self.f["nullmap"]:
            return None
        if r.random() < self.f["badmap"]:
            return r.choice([1, True, [["./a.js"]], {"node": 3}, ""])
        t = self.target(d, imports)
        if form == "exact" or r.random() < 0.08:
            return t
        path = t.split("?")[0].split("#")[0] if not imports else t
        if form == "folder":
            return path.rsplit("/", 1)[0] + "/" if "/" in path else path + "/"
        head, _, last = path.rpartition("/")
        for e in (".js", ".ts", ".json"):
            if last.endswith(e) and r.random() < 0.5:
                return (head + "/" if head else "") + "*" + e
        return (head + "/" if head else "") + r.choice(["*", "*", "*.js", "*/*.js", "*.*"])

    def key(self, d):
        """A subpath key and its form."""
        r = self.r
        if r.random() < self.f["near"] / 2:
            return tweak.text(r, self.rel(d)).lstrip("/") or "a", r.choice(["exact", "exact", "folder", "pattern"])
        if r.random() < self.f["qfkey"]:
            return self.rel(d) + r.choice(SUFFIXES), "exact"
        p = self.rel(d)
        x = r.random()
        if x < 0.5:
            return p, "exact"
        head = p.rsplit("/", 1)[0] + "/" if "/" in p else ""
        if x < 0.75:
            return (head or r.choice(["lib/", "a/", ""])), "folder"
        if r.random() < 0.3:
            return head + p[len(head):][:1] + "*", "pattern"
        return head + "*", "pattern"

    def exports(self, d):
        r = self.r
        if r.random() < 0.2:
            return self.mapping(d, "exact")
        out = {}
        if r.random() < 0.5:
            out["."] = self.mapping(d, "exact")
        for _ in range(r.randint(1, 4)):
            k, form = self.key(d)
            out["./" + k] = self.mapping(d, form)
        if r.random() < self.f["badmap"]:
            out[r.choice([".x", "a", "node", "../a", "/a"])] = "./a.js"
        ks = list(out)
        r.shuffle(ks)
        return {k: out[k] for k in ks}

    def imports(self, d):
        r = self.r
        out = {}
        for _ in range(r.randint(1, 4)):
            k, form = self.key(d)
            if r.random() < 0.5 and form == "exact":
                k = r.choice(["a", "b", "c"])
            out["#" + k if k and not k.startswith("/") else "#a"] = self.mapping(d, form, imports=True)
        if r.random() < self.f["badmap"]:
            out[r.choice(["#", "#/", "#/a", "a", "./a"])] = "./a.js"
        return out

    def browser(self, d):
        r = self.r
        out = {}
        for _ in range(r.randint(1, 4)):
            x = r.random()
            k = r.choice(PKGS + ["fs"]) if x < 0.35 else "./" + self.messy(self.rel(d))
            if x > 0.9:
                k = k[2:]
            if r.random() < self.f["near"] / 2:
                k = tweak.text(r, k)
            y = r.random()
            if y < 0.25:
                v = False
            elif y < 0.3:
                v = r.choice([True, None, 3, {}])
            elif y < 0.55:
                v = r.choice(PKGS)
            elif y < 0.7 and out:
                v = r.choice(list(out))
            else:
                v = "./" + self.rel(d)
            out[k] = v
        return out

    def maintext(self, d):
        r = self.r
        if r.random() < self.f["junkmain"]:
            return r.choice([None, 3, True, "", ".", "./", "..", "../a", "/a", "./none", {"a": 1}, ["a"], "./."])
        p = self.rel(d)
        if r.random() < self.f["maindir"] and "/" in p:
            p = p.rsplit("/", 1)[0]
        elif r.random() < self.f["maindir"]:
            subs = [k[len(d) + 1:].rsplit("/", 1)[0] for k in self.under(d) if k.count("/") > d.count("/") + 1 and "node_modules" not in k]
            p = r.choice(subs or [p])
        x = r.random()
        if x > 0.9 and x < 0.94:
            p = r.choice([p + " ", p + " ", " " + p, p + "\t", p + "."])
            if r.random() < 0.7 and not {"", ".", ".."} & set(p.split("/")):
                self.file(f"{d}/{p}{r.choice(['', '', '.js'])}")
        return ("./" if x < 0.5 else "") + p + ("/" if x > 0.95 else "")

    def pkgjson(self, d, name):
        r = self.r
        j = {}
        if self.p("name"):
            j["name"] = name if r.random() < 0.8 else r.choice(PKGS + [3, None])
        for k in FIELDS:
            if r.random() < (self.f["main"] if k == "main" else self.f["main2"]):
                if not (k == "browser" and self.f["bf"] > 0):
                    j[k] = self.maintext(d)
        if self.p("bf"):
            j["browser"] = self.browser(d)
        if self.p("exports"):
            j["exports"] = self.exports(d)
        if self.p("imports"):
            j["imports"] = self.imports(d)
        if self.p("se"):
            j["sideEffects"] = self.effects()
        for k in OTHER:
            if r.random() < self.f["other"]:
                j[k] = r.choice(OTHER[k])
        if self.p("badjson"):
            return r.choice([BAD, BAD, [], "x", 3, None])
        ks = list(j)
        r.shuffle(ks)
        return {k: j[k] for k in ks}

    def effects(self):
        r = self.r
        if r.random() < 0.4:
            return r.choice([True, False])
        items = ["a.js", "./b", "./lib/*.js", "", "**/*.css", "é"]
        if self.p("badse"):
            if r.random() < 0.3:
                return r.choice([None, 3, "a", {}, "", 0])
            items = items[:2] + [None, 1, True, ["a.js"], {}]
        return [r.choice(items) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4]))]

    def describe(self, d, name, df="package.json"):
        p = f"{d}/{df}"
        self.t.pop(p, None)
        self.file(p, self.pkgjson(d, name))

    # ---------------------------------------------------------------- the tree
    def package(self, nm, name, depth=0):
        r = self.r
        if r.random() < self.f["filemod"]:
            self.file(f"{nm}/{name}{r.choice(['', '.js', '.ts', '.json'])}")
            return
        d = f"{nm}/{name}"
        self.fill(d, r.randint(0, 4) if r.random() > self.f["exports"] + self.f["imports"] else r.randint(2, 5))
        if self.p("pkgjson"):
            self.describe(d, name, self.df())
        if self.p("nested"):
            sub = f"{d}/{r.choice(SEG)}"
            self.fill(sub, 1, 0)
            if self.p("pkgjson"):
                self.describe(sub, r.choice([name, "foo", name + "/" + sub.rsplit("/", 1)[1]]), self.df())
        if depth < 1 and r.random() < self.f["deepnm"]:
            self.package(f"{d}/node_modules", r.choice(PKGS), depth + 1)

    def df(self):
        return self.pick(["package.json", "pkg.json"]) if self.p("df") else "package.json"

    def build(self):
        r = self.r
        self.fill("/p", r.randint(2, 4))
        self.fill("/p/src", r.randint(0, 3), 1)
        if r.random() < 0.5:
            self.fill("/p/src/lib", r.randint(1, 2), 1)
        for nm, w in (("/p/node_modules", 0.85), ("/p/src/node_modules", 0.4), ("/node_modules", 0.4)):
            if r.random() < w * self.f["nm"]:
                for name in sorted(set(r.choice(PKGS) for _ in range(r.randint(1, 3)))):
                    self.package(nm, name)
                if self.p("nmnm"):
                    self.package(nm + r.choice(["/node_modules", "/@s/node_modules", "/node_modules/node_modules", "/foo/lib/node_modules"]), r.choice(PKGS))
        for d in ("/p", "/p/src", "/p/src/lib", "/p/a"):
            if self.p("pkgjson") and r.random() < (0.8 if d == "/p" else 0.25):
                self.describe(d, r.choice(["p", "foo", "@s/foo"]), self.df())
        if r.random() < self.f["links"]:
            self.links()

    def links(self):
        r = self.r
        for _ in range(r.randint(1, 3)):
            at = r.choice(["/p", "/p/src", "/p/lib", "/p/node_modules", "/p/src/node_modules", "/q", "/p/node_modules/.store"])
            name = r.choice(["l", "foo", "a", "a.js", "bar", "index.js", "node_modules", "lib"])
            p = f"{at}/{name}"
            if p in self.t or any(k.startswith(p + "/") for k in self.t) or any(at == k or at.startswith(k + "/") for k in self.t if not k.endswith("/")):
                continue
            x = r.random()
            some = [k for k in self.t if not k.endswith("/")]
            tgt = r.choice(some) if some else "/p"
            if x < 0.6 and "/" in tgt[1:]:
                tgt = tgt.rsplit("/", r.randint(1, min(2, tgt.count("/") - 1)))[0]
            if x > 0.93:
                tgt = r.choice(["/none", p, "/p/l"])
            if r.random() < 0.5:
                self.t[p] = Link("/R" + tgt)
            else:
                self.t[p] = Link("../" * (p.count("/") - 1) + tgt[1:])

    # ---------------------------------------------------------------- calls
    def dirs(self):
        ds = {"/p", "/p/src", "/p/src/lib"}
        for k in self.t:
            q = k.rstrip("/")
            while "/" in q[1:]:
                q = q.rsplit("/", 1)[0]
                ds.add(q)
        return sorted(ds)

    def importer(self):
        r = self.r
        x = r.random()
        if self.p("nmnm"):
            d = r.choice([k[:k.rindex("/node_modules") + 13] for k in self.t if "/node_modules" in k] or ["/p"]) + r.choice(["", "", "/@s", "/foo", "/node_modules", "/none"])
        elif x < 0.55:
            d = r.choice(["/p", "/p/src", "/p/src/lib"])
        elif x < 0.92 or not self.p("odddir"):
            d = r.choice(self.dirs())
        else:
            d = r.choice(["/p/none", "/p/none/src", "/p/src/..", "/p/./src", "/p/src/", "/p//src", "/p/src/../lib", "", "/p/a.js"] + [k for k in self.t])
        return "/R" + d

    def aimed(self, dd):
        """A request for a key of the browser map that governs dd, or for an alias key: the same, nearly the same, or below it."""
        r = self.r
        keys = []
        scope = dd.rstrip("/")
        while True:
            j = self.t.get(scope + "/package.json")
            if isinstance(j, dict):
                m = j.get("browser")
                for k, v in m.items() if isinstance(m, dict) else ():
                    for k in (k, v) if isinstance(v, str) else (k,):
                        if k.startswith("./"):
                            k = os.path.relpath(os.path.normpath(f"{scope}/{k}") + ("/" if k.endswith("/") else ""), os.path.normpath(dd))
                            k = k if k.startswith("..") else "./" + k
                        keys.append(k)
                break
            if not scope:
                break
            scope = scope.rsplit("/", 1)[0]
        for k, v in self.aliases:
            keys += [k] + ([v] if v else [])
        if not keys:
            return None
        k = r.choice(keys)
        x = r.random()
        if x < 0.45:
            return k
        if x < 0.55:
            return tweak.text(r, k) or "a"
        if x < 0.65:
            return k.rsplit(".", 1)[0] if "." in k.rsplit("/", 1)[-1][1:] else k + r.choice([".js", ".json"])
        if x < 0.75 and k.endswith(("/index.js", "/index")):
            return k.rsplit("/", 1)[0]
        return k + r.choice(["/", "/", ".js", "-b", "/a", "/index", "/" + self.rel(dd), "", "x", "/b.js"])

    def throughlink(self, dd):
        """A request through a link, often with .. right after it."""
        r = self.r
        ls = [k for k, v in self.t.items() if isinstance(v, Link)]
        if not ls:
            return None
        k = r.choice(ls)
        to = self.t[k].to
        to = to[2:] if to.startswith("/R") else os.path.normpath(os.path.join(os.path.dirname(k), to))
        q = os.path.relpath(k, os.path.normpath(dd))
        q = q if q.startswith("..") else "./" + q
        if r.random() < 0.6:
            return f"{q}/../{self.existing(os.path.dirname(to) if to != '/' else '')}"
        return f"{q}/{self.existing(to)}" if r.random() < 0.7 else q

    def request(self, d):
        r, f = self.r, self.f
        dd = d[2:] or "/"
        if (f["bf"] or f["oalias"]) and r.random() < f["aimed"]:
            q = self.aimed(dd)
            if q:
                return q
        if r.random() < f["vialink"]:
            q = self.throughlink(dd)
            if q:
                return q
        x = r.random()
        nms = [k[:k.index("/node_modules/") + 13] for k in self.t if "/node_modules/" in k]
        if x < f["bare"] and nms:
            seen = [k for k in nms if k == "/node_modules" or dd.startswith(k[:-12])]
            nm = r.choice(seen if seen and r.random() < 0.85 else nms)
            names = sorted({"/".join(k[len(nm) + 1:].split("/")[:2 if k[len(nm) + 1] == "@" else 1]) for k in self.t if k.startswith(nm + "/")})
            name = r.choice(names) if r.random() < 0.85 else r.choice(PKGS + ["fo", "foo-", "@s/fo", "p", "@s/foo-b"])
            j = self.t.get(f"{nm}/{name}/package.json")
            e = j.get("exports") if isinstance(j, dict) else None
            sub = 0.6 if e is None else 0.15 if not isinstance(e, dict) or not any(k[:2] == "./" for k in e) else 0.6 if "." in e else 0.9
            q = name + "/" + self.messy(self.subpath(f"{nm}/{name}")) if r.random() < sub else name
        elif x < f["bare"] + f["selfref"]:
            q = r.choice(["p", "foo", "@s/foo"]) + r.choice(["", "", "/" + self.subpath("/p")])
        elif x < f["bare"] + f["selfref"] + f["internal"]:
            q = "#" + r.choice(["a", "b", "c", "lib/a", "lib/b", "x", "a/b"] + [self.subpath("/p")] * 3)
            scope = dd
            while scope and not (isinstance(self.t.get(scope + "/package.json"), dict)):
                scope = scope.rsplit("/", 1)[0]
            m = self.t.get(scope + "/package.json", {}).get("imports") if scope else None
            if isinstance(m, dict) and r.random() < 0.8:
                q = "#" + (self.keyed(scope, m, "#") or "a")
        elif x < f["bare"] + f["selfref"] + f["internal"] + f["absolute"]:
            q = "/R" + self.messy((r.choice([k for k in self.t]) if r.random() < 0.8 else "/p/" + self.rel("/p")))
            if r.random() < 0.4:
                q = q.rsplit(".", 1)[0]
        elif x > 1 - f["plain"]:
            q = self.messy(self.rel(dd))
        elif x > 1 - f["plain"] - f["junk"]:
            q = r.choice(["", ".", "..", "./", "../", "/", "./.", "..//", "@", "@s", "@s/", "?q", "#", "#/", "#f", "./a/../..", "...", ".a", "..a", ".../a", "C:", "C:/a", "C:\\a", "c:a", "?", "./?q", "..?q", " ", "a b", "*", "//a", "\\a", "./#", "foo/", "foo//a", "/R"])
        elif r.random() < 0.7:
            near = [k for k in self.t if not k.endswith(("/", "package.json")) and "node_modules" not in k and k.count("/") <= dd.count("/") + 2]
            near = [k for k in near if k.startswith(dd.rsplit("/", 1)[0])] or near or ["/p/a.js"]
            q = os.path.relpath(r.choice(near), os.path.normpath(dd))
            x = r.random()
            if x < 0.45 and "." in q.rsplit("/", 1)[1 if "/" in q else 0][1:]:
                q = q.rsplit(".", 1)[0]
            elif x < 0.6 and "/" in q:
                q = q.rsplit("/", 1)[0]
            q = self.messy(q)
            if not q.startswith("."):
                q = "./" + q
            elif not (q.startswith("./") or q.startswith("../") or q == ".."):
                q = "./" + q
        else:
            up = r.random()
            if up < 0.6 or dd.count("/") < 2:
                q = "./" + self.messy(self.rel(dd))
            elif up < 0.9:
                q = "../" + self.messy(self.rel(dd.rsplit("/", 1)[0]))
            else:
                q = "../" * min(2, dd.count("/") - 1) + self.rel(dd.rsplit("/", 1)[0])
        if r.random() < f["near"]:
            q = tweak.text(r, q)
        if r.random() < f["qf"]:
            q += r.choice(["?q", "#f", "?q#f", "?a=b?c#d#e", "?", "#", "#f?q", "?#", "?./a", "#../b", "??q"])
        return q

    # ---------------------------------------------------------------- calls that are likely to lead somewhere
    def has(self, p, deep=0):
        p = os.path.normpath(p)
        t = self.t
        if deep > 3:
            return False
        if p in t or any(p + e in t for e in (".js", ".ts", ".json", ".node", ".js.js")):
            return True
        if f"{p}/package.json" in t:
            j = t[f"{p}/package.json"]
            if isinstance(j, dict) and any(isinstance(j.get(k), str) and j[k] and p != os.path.normpath(f"{p}/{j[k]}") and self.has(f"{p}/{j[k]}", deep + 1) for k in ("main", "module")):
                return True
        return any(f"{p}/index{e}" in t for e in ("", ".js", ".ts")) or any(isinstance(t.get(p[:i]), Link) for i in range(2, len(p)) if p[i] == "/")

    def leads(self, d, m, key):
        """May key, looked up in the map m of the description in d, lead to a file?"""
        if not isinstance(m, dict) or not any(k[:1] in ".#" for k in m):
            return key == "." and self.leaf(d, m, "")
        best = max((k for k in m if k == key or (k[-1:] in "*/" and key.startswith(k[:-1]) and len(key) >= len(k))), key=len, default=None)
        return best is not None and self.leaf(d, m[best], key[len(best) - 1:] if best[-1:] == "*" else key[len(best):])

    def leaf(self, d, v, rest):
        if isinstance(v, dict):
            return any(self.leaf(d, x, rest) for x in v.values())
        if isinstance(v, list):
            return any(self.leaf(d, x, rest) for x in v)
        if not isinstance(v, str):
            return False
        v = v.replace("*", rest) if "*" in v else v + rest
        v = v.split("?")[0].split("#")[0]
        return (v.startswith("./") and self.has(f"{d}/{v}")) or (v[:1] not in ("", ".", "#") and self.plausible("/R" + d, v, 1))

    def plausible(self, d, q, depth=0):
        if depth > 1:
            return False
        dd = os.path.normpath(d[2:] or "/")
        if q.startswith("#"):
            while True:
                j = self.t.get(dd.rstrip("/") + "/package.json")
                if isinstance(j, dict):
                    return not depth and self.leads(dd, j.get("imports", {}), q)
                if dd == "/":
                    return False
                dd = dd.rsplit("/", 1)[0] or "/"
        q = q.split("?")[0].split("#")[0]
        if q.startswith("/R"):
            return self.has(q[2:] or "/")
        if q.startswith("./") or q.startswith("../") or q in ("", ".", ".."):
            return self.has(f"{dd}/{q}")
        parts = q.split("/")
        n = 2 if q.startswith("@") else 1
        name, rest = "/".join(parts[:n]), "/".join(parts[n:])
        while True:
            p = dd.rstrip("/") + "/node_modules/" + name
            j = self.t.get(p + "/package.json")
            if isinstance(j, dict) and j.get("exports") is not None:
                if self.leads(p, j["exports"], "./" + rest if rest else "."):
                    return True
            elif self.has(p + ("/" + rest if rest else "")):
                return True
            if dd == "/":
                return False
            dd = dd.rsplit("/", 1)[0] or "/"

    def call(self):
        d = self.importer()
        q = self.request(d)
        for _ in range(12):
            if self.r.random() > self.f["hit"] or self.plausible(d, q):
                break
            d = self.importer()
            q = self.request(d)
        return d, q

    def rests(self, d, v):
        """What * (or the part after a folder key) could be so that a leaf of v names a file of d."""
        if isinstance(v, (dict, list)):
            return [x for y in (v.values() if isinstance(v, dict) else v) for x in self.rests(d, y)]
        if not isinstance(v, str) or not v.startswith("./"):
            return []
        if "*" not in v and not v.endswith("/"):
            return ["a"]
        pre, _, post = os.path.normpath(v).partition("*") if "*" in v else (os.path.normpath(v) + "/", "", "")
        pre = pre[2:] if pre.startswith("./") else pre
        out = []
        for f in self.under(d):
            f = f[len(d) + 1:]
            if f.startswith(pre) and f.endswith(post) and len(f) > len(pre) + len(post):
                x = f[len(pre):len(f) - len(post)]
                out += [x, x.rsplit(".", 1)[0]] if self.r.random() < 0.4 else [x]
        return [x for x in out if x]

    def keyed(self, d, m, head):
        """A subpath that a key of m (of the description in d) matches, most often one that leads to a file."""
        r = self.r
        ks = [k for k in m if k.startswith(head)]
        if not ks:
            return None
        k = r.choice(ks)
        if k[-1:] in "*/":
            rest = self.rests(d, m[k])
            return k[len(head):].rstrip("*") + (r.choice(rest) if rest and r.random() < 0.8 else r.choice(["a", "b", "a.js", "index.js", self.rel(d)]))
        return k[len(head):]

    def subpath(self, d):
        r = self.r
        j = self.t.get(d + "/package.json")
        if isinstance(j, dict) and isinstance(j.get("exports"), dict) and r.random() < 0.75:
            k = self.keyed(d, j["exports"], "./")
            if k is not None:
                return k
        return self.rel(d)

    # ---------------------------------------------------------------- options
    def options(self):
        r, f = self.r, self.f
        o = {}
        if self.p("oext"):
            o["ext"] = r.choice([[".js"], [".ts", ".js"], [".js", ".ts"], ["", ".js"], [".js", ""], [], ["js"], [".js.js", ".js"], [".json", ".js", ".ts"], [".x", ".y", ".z", ".node", ".ts", ".js"], [".js", ".js"], [".ts", "", ".js"]])
        if self.p("oenf"):
            o["enf"] = r.choice(["true", "false"])
        if self.p("omf"):
            o["mfiles"] = r.choice([["index"], ["main", "index"], ["index.js"], [], ["a", "index"], ["lib/a", "index"], ["lib", "index"], ["x", "y", "main", "index"], ["index", "x", "y"], ["none", "a", "index", "main", "b"]])
        if self.p("omfd"):
            o["mfields"] = r.choice([["module", "main"], ["main", "module"], ["browser", "module", "main"], [], ["style"], ["main", "main"], ["module", "style", "browser", "main"], ["x", "main", "y"], ["main", "x", "y", "z", "style"], ["type", "name", "main"]])
        if self.p("ocond"):
            o["cond"] = r.sample(CONDS, r.randint(0, 3)) + r.choice([[], [], [], ["zz1", "zz2"], ["production", "development", "worker", "deno"]])
        if self.p("obf"):
            o["bf"] = True
        if self.p("opr"):
            o["pr"] = True
        if self.p("osym"):
            o["sym"] = False
        if self.p("odf"):
            o["df"] = r.choice(["", "pkg.json", "package.json"])
        if self.p("oalias"):
            o["alias"] = self.alias()
            self.aliases += o["alias"]
        if self.p("ots"):
            o["ts"] = "/R/p/tsconfig.json"
        o = opts(**o)
        if self.p("oddopt"):
            k = r.choice(["ext", "ext", "mfiles", "mfiles", "mfields", "cond", "alias"])
            if k == "alias":
                o[k] = [[a, kind, tweak.text(r, v) if kind == "to" else v] for a, kind, v in o[k]]
            else:
                o[k] = [tweak.text(r, v) if r.random() < 0.5 else v for v in o[k]]
        return o

    def alias(self):
        r = self.r
        out = []
        for _ in range(r.randint(1, 4)):
            k = r.choice(["foo", "foo", "fo", "@s", "@s/foo", "./a", "./lib", "@", "a", "#a", "/R/p/a", "bar", "x", "foo/a", ".", "p"])
            x = r.random()
            if x < 0.15:
                v = None
            elif x < 0.3:
                v = r.choice(["foo", "bar", "x", "@s/foo", "#a", ""])
            elif x < 0.5 and out:
                v = r.choice(out)[0] + r.choice(["", "", "/a", "x"])
            elif x < 0.6:
                v = k + r.choice(["/a", "-b", "x"])
            elif x < 0.6 + self.f["near"]:
                k = tweak.text(r, k)
                v = "./" + self.rel("/p")
            elif x < 0.8:
                v = "/R/p" + r.choice(["", "/" + self.rel("/p")])
            else:
                v = "./" + self.rel("/p")
            out.append((k, v))
        return out

    # ---------------------------------------------------------------- tsconfig
    def tsconfig(self):
        r = self.r
        t = {}
        co = {}
        if r.random() < 0.9:
            co["baseUrl"] = r.choice([".", "./", "src", "./src", "./src/lib", "..", "/R/p/src", "none"])
        if r.random() < 0.9:
            ps = {}
            pats = r.sample(["*", "a", "a/*", "a*", "foo", "foo/*", "@s/*", "@s/foo", "@s/f*", "*.js", "lib/*", "li*b", "p", "@/*", "./a", "./*", "x*y", "a/*/b", "**", "a*b"], r.randint(1, 4))
            seen = {}
            for p in pats:
                k = (p.index("*"), p[:p.index("*")]) if "*" in p else p
                if k in seen:
                    continue
                seen[k] = 1
                ps[p] = [r.choice(["*", "./*", "src/*", "./src/*", "./lib/*", "lib/*", "./a", "src/a", "a.js", "./*/index", "/R/p/*", "node_modules/*", "./node_modules/foo/*", "none/*", "../p/*", "*.js", "b*", self.rel("/p"), self.rel("/p/src")]) for _ in range(r.randint(0, 3))]
            co["paths"] = ps
        if r.random() < 0.9:
            t["compilerOptions"] = co
        if r.random() < self.f["badts"]:
            return r.choice([BAD, [], 3, {"compilerOptions": 3}, {"compilerOptions": {"baseUrl": 3, "paths": {}}}, {"compilerOptions": {"baseUrl": ".", "paths": []}},
                             {"compilerOptions": {"baseUrl": ".", "paths": {"a": "b"}}}, {"compilerOptions": {"baseUrl": ".", "paths": {"a": [1]}}}, {"extends": 3}, {"extends": "./none"},
                             {"compilerOptions": {"baseUrl": None, "paths": {"*": ["./*"]}}}, {"compilerOptions": None}])
        return t

    def tsconfigs(self):
        r = self.r
        t = self.tsconfig()
        if isinstance(t, dict) and r.random() < self.f["extends"]:
            t["extends"] = r.choice(["./base.json", "./base", "./cfg/base.json", "foo/base.json", "./tsconfig.json", "/R/p/base.json"])
        x = r.random()
        if x < 0.07 and "/p/tsconfig.json" not in self.t:
            self.file("/p/cfg/ts.json", t)
            self.t["/p/tsconfig.json"] = Link(r.choice(["cfg/ts.json", "/R/p/cfg/ts.json", "./cfg/../cfg/ts.json"]))
        elif x < 0.97:
            self.file("/p/tsconfig.json", t)
        if r.random() < self.f["extends"] + 0.1:
            for p in ("/p/base.json", "/p/cfg/base.json", "/p/node_modules/foo/base.json"):
                if r.random() < 0.6:
                    b = self.tsconfig()
                    if isinstance(b, dict) and r.random() < 0.2:
                        b["extends"] = r.choice(["./base.json", "../base.json", "../tsconfig", "./b2.json"])
                    self.file(p, b)


def world(r, f, id, nres=1, ncalls=12, side=0.0):
    w = World(r, f)
    w.build()
    if f["ots"]:
        w.tsconfigs()
    res = [w.options() for _ in range(nres)]
    ev = []
    for _ in range(ncalls):
        if ev and r.random() < f["again"]:
            ev.append({**r.choice(ev), "r": r.randint(1, nres)})
        elif r.random() < side:
            d = w.importer()
            ev.append(S(d if r.random() < 0.7 else "/R" + r.choice(list(w.t)), r.randint(1, nres)))
        else:
            ev.append(R(*w.call(), r.randint(1, nres)))
    return styled(r, f, scenario(id, w.t, ev, res))


def styled(r, f, s):
    """JSON files written with white space or escapes, a tsconfig with comments."""
    if r.random() < f["style"]:
        for n in s["fs"]:
            if n["t"] == "j" and r.random() < 0.7:
                n["style"] = r.choice([2, 2, 1, 3] if not n["p"].endswith(("package.json", "pkg.json")) else [1, 3])
    return s


def prof(**kw):
    return P({**BASE, "nm": 1.0, **kw})


ALL = prof(vialink=0.05, maindir=0.1, qfkey=0.05, nmnm=0.05, links=0.25, qf=0.15, main2=0.15, bf=0.3, exports=0.3, imports=0.3, se=0.2, badse=0.2, badjson=0.03, badmap=0.06, nullmap=0.06, badtarget=0.12, cond=0.2, arr=0.15,
           filemod=0.15, deepnm=0.3, df=0.1, bare=0.4, selfref=0.07, internal=0.1, absolute=0.06, plain=0.05, junk=0.05, odddir=0.5,
           oext=0.3, oenf=0.15, omf=0.2, omfd=0.3, ocond=0.4, obf=0.4, opr=0.2, osym=0.2, odf=0.15, oddopt=0.05, oalias=0.3, ots=0.15, badts=0.1, extends=0.3)
