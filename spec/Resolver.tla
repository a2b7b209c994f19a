------------------------------ MODULE Resolver ------------------------------
(* What one call of the resolver returns, as a function of the file tree, the options, the          *)
(* importing directory and the request.  One operator per stage of the resolver:                    *)
(*   Alias, PreferRelative, Imports, BrowserField, AsFile, AsDir, MainFields, MainFiles, AsModules, *)
(*   Exports, tsconfig paths.                                                                       *)
(*                                                                                                  *)
(* c == [fs |-> tree, o |-> options]; options as in lib/scn.py:                                     *)
(*   ext enf alias pr sym df mfiles mfields bf cond ts                                              *)
(* A search step works on an info record                                                            *)
(*   [p |-> path, t |-> target, q |-> query, f |-> fragment, n |-> mappings so far]                 *)
(* and gives                                                                                        *)
(*   Go(i)       nothing found yet, go on with i                                                    *)
(*   Found(p, i) a file, query and fragment of i                                                    *)
(*   Ignored                                                                                        *)
(*   Fail(m)     m = NotFound: other candidates may still succeed; m = Cycle: the search ends;      *)
(*               any other m: the text of the error.                                                *)
EXTENDS Fields

MaxDepth == 32
MaxTarget == 4096                           \* a target that keeps growing is in a cycle
Modules == "node_modules"
NotFound == "T0"
Cycle == "T1"

Go(i) == [s |-> "go", i |-> i]
Found(p, i) == [s |-> "ok", p |-> p, q |-> i.q, f |-> i.f]
Ignored == [s |-> "ign"]
Fail(m) == [s |-> "err", m |-> m]
Success(r) == r.s \in {"ok", "ign"}
Over(r) == Success(r) \/ (r.s = "err" /\ r.m = Cycle)      \* no other candidate is tried

(***************************************************************************************************)
(* Requests                                                                                         *)
(***************************************************************************************************)
(* The fragment starts at the first "#" after the first character, the query at the first "?"       *)
(* before it.                                                                                       *)
Parse(s) ==
  LET h == Min0({i \in At(s, "#") : i > 1})
      head == IF h = 0 THEN s ELSE UpTo(s, h - 1)
      q == Min0(At(head, "?"))
  IN  [t |-> IF q = 0 THEN head ELSE UpTo(head, q - 1),
       q |-> IF q = 0 THEN "" ELSE From(head, q),
       f |-> IF h = 0 THEN "" ELSE From(s, h)]

Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}

Kind(t) ==
  IF t = "" THEN "relative"
  ELSE IF StartsWith(t, "#") THEN "internal"
  ELSE IF StartsWith(t, "/") THEN "absolute"
  ELSE IF t \in {".", ".."} \/ StartsWith(t, "./") \/ StartsWith(t, "../") THEN "relative"
  ELSE IF Len(t) >= 2 /\ Ch(t, 2) = ":" /\ Ch(t, 1) \in Letters /\ (Len(t) = 2 \/ Ch(t, 3) \in {"/", "\\"})
       THEN "windows"
  ELSE "bare"

Info(p, r, n) == [p |-> p, t |-> r.t, q |-> r.q, f |-> r.f, n |-> n]
PathAt(i) == IF i.t = "" \/ i.t = "." THEN i.p ELSE Join(i.p, i.t)
NoTarget(i, p) == [i EXCEPT !.p = p, !.t = ""]

Enforced(o) == IF o.enf = "none" THEN \E k \in 1..Len(o.ext) : o.ext[k] = "" ELSE o.enf = "true"

(***************************************************************************************************)
(* Description files                                                                                *)
(***************************************************************************************************)
NoPkg == [k |-> "none"]

GoodSideEffects(j) == Tag(j) = "b" \/ (Tag(j) = "a" /\ \A i \in 1..Len(j[2]) : IsStr(j[2][i]))

UsableField(j, key) == HasKey(j, key) /\ Tag(Val(j, key)) # "z"

DescriptionError(text, j) ==
  IF Tag(j) = "bad" THEN "Parse " \o text \o " failed"
  ELSE LET e1 == IF UsableField(j, "exports") THEN ExportsError(Val(j, "exports")) ELSE ""
           e2 == IF UsableField(j, "imports") THEN ImportsError(Val(j, "imports")) ELSE ""
       IN  IF e1 # "" THEN e1
           ELSE IF e2 # "" THEN e2
           ELSE IF HasKey(j, "sideEffects") /\ ~GoodSideEffects(Val(j, "sideEffects")) THEN AnyMsg
           ELSE ""

(* The nearest description file at or above a path (from the nearest existing directory).           *)
Nearest(c, p) ==
  LET ch == Chain(p)
      at == {k \in 1..Len(ch) : IsFile(c.fs, Join(ch[k], c.o.df))}
  IN  IF c.o.df = "" \/ at = {} THEN <<>> ELSE <<ch[Min(at)]>>

Load(c, p) ==
  LET d == Nearest(c, p) IN
  IF d = <<>> THEN NoPkg
  ELSE LET file == Join(d[1], c.o.df)
           node == c.fs[Walk(c.fs, file)]
           j == IF node.t = "j" THEN node.j ELSE <<"bad">>        \* an ordinary file is empty: not JSON
           e == DescriptionError(PathText(file), j)
       IN  IF e # "" THEN Err(e) ELSE [k |-> "pkg", dir |-> d[1], j |-> j]

SideEffects(c, p) ==
  LET g == Load(c, p) IN
  IF g.k # "pkg" THEN g
  ELSE [k |-> "some", p |-> PathText(Join(g.dir, c.o.df)),
        se |-> IF ~HasKey(g.j, "sideEffects") THEN <<"none">>
               ELSE LET v == Val(g.j, "sideEffects") IN
                    IF Tag(v) = "b" THEN <<"bool", v[2]>>
                    ELSE <<"array", [i \in 1..Len(v[2]) |-> v[2][i][2]]>>]

(***************************************************************************************************)
(* Files                                                                                            *)
(***************************************************************************************************)
AsFile(c, i) ==
  LET p == PathAt(i) IN
  IF ~Enforced(c.o) /\ IsFile(c.fs, p) THEN Found(p, i)
  ELSE LET hit == {k \in 1..Len(c.o.ext) : IsFile(c.fs, AppendText(p, c.o.ext[k]))}
       IN  IF hit = {} THEN Go(i) ELSE Found(AppendText(p, c.o.ext[Min(hit)]), i)

(***************************************************************************************************)
(* browser field                                                                                    *)
(***************************************************************************************************)
BrowserEntries(j) ==
  IF ~(HasKey(j, "browser") /\ IsObj(Val(j, "browser"))) THEN <<>>
  ELSE SelectSeq(Val(j, "browser")[2], LAMBDA e : IsStr(e[2]) \/ e[2] = <<"b", FALSE>>)

RECURSIVE Chase(_, _, _)                    \* a chain of replacements ends at a repetition
Chase(es, v, seen) ==
  IF ~IsStr(v) \/ v[2] \in seen THEN v
  ELSE LET at == {k \in 1..Len(es) : es[k][1] = v[2]} IN
       IF at = {} THEN v ELSE Chase(es, es[Min(at)][2], seen \cup {v[2]})

BrowserField(c, g, i) ==
  IF ~c.o.bf \/ g.k # "pkg" THEN Go(i)
  ELSE LET es == BrowserEntries(g.j)
           p == PathAt(i)
           Names(key) ==
             IF Kind(i.t) = "bare" THEN key = i.t
             ELSE LET kp == Key(Join(g.dir, key)) IN
                  \/ kp = Key(p)
                  \/ \E k \in 1..Len(c.o.ext) : kp = Key(AppendText(p, c.o.ext[k]))
           at == {k \in 1..Len(es) : Names(es[k][1])}
       IN  IF at = {} THEN Go(i)
           ELSE LET v == Chase(es, es[Min(at)][2], {}) IN
                IF IsStr(v) THEN Go([i EXCEPT !.p = g.dir, !.t = v[2]]) ELSE Ignored

(***************************************************************************************************)
(* Directories                                                                                      *)
(***************************************************************************************************)
RECURSIVE AsDir(_, _), MainFields(_, _, _, _), MainFiles(_, _, _, _)

AsDir(c, i) ==
  LET d == PathAt(i) IN
  IF ~IsDir(c.fs, d) THEN Fail(NotFound)
  ELSE LET g == Load(c, d) IN
       IF g.k = "err" THEN Fail(g.m)
       ELSE LET i2 == NoTarget(i, d)
                r == IF g.k = "pkg" /\ SamePath(d, g.dir) THEN MainFields(c, g, i2, 1) ELSE Go(i2)
            IN  IF r.s = "go" THEN MainFiles(c, g, i2, 1) ELSE r

MainFields(c, g, i, k) ==
  IF k > Len(c.o.mfields) THEN Go(i)
  ELSE IF ~HasStr(g.j, c.o.mfields[k]) THEN MainFields(c, g, i, k + 1)
  ELSE LET main == Val(g.j, c.o.mfields[k])[2]
           t == IF StartsWith(main, "./") THEN main ELSE "./" \o main
       IN  IF SamePath(Join(i.p, t), i.p) THEN Go(i)              \* it points to its own directory
           ELSE IF i.n > MaxDepth THEN Fail(Cycle)
           ELSE LET r1 == BrowserField(c, g, [i EXCEPT !.t = t, !.n = i.n + 1])
                    r2 == IF r1.s = "go" THEN AsFile(c, r1.i) ELSE r1
                    r3 == IF r2.s = "go" THEN AsDir(c, r2.i) ELSE r2
                IN  IF Over(r3) THEN r3 ELSE MainFields(c, g, i, k + 1)

MainFiles(c, g, i, k) ==
  IF k > Len(c.o.mfiles) THEN Fail(NotFound)
  ELSE LET r1 == BrowserField(c, g, [i EXCEPT !.t = "./" \o c.o.mfiles[k]])
           r2 == IF r1.s = "go" THEN AsFile(c, r1.i) ELSE r1
       IN  IF Success(r2) THEN r2 ELSE MainFiles(c, g, i, k + 1)

(***************************************************************************************************)
(* exports field: i.p is the node_modules directory, i.t the bare request                           *)
(***************************************************************************************************)
NamesPackage(g, t) ==
  HasStr(g.j, "name") /\ LET name == Val(g.j, "name")[2] IN t = name \/ StartsWith(t, name \o "/")

NotExported(t) == Fail("Package path " \o t \o " is not exported")

Exports(c, g, i) ==
  IF g.k # "pkg" \/ Kind(i.t) # "bare" THEN Go(i)
  ELSE IF ~PathUnder(g.dir, i.p) /\ ~NamesPackage(g, i.t) THEN Go(i)
  ELSE IF ~UsableField(g.j, "exports") THEN Go(i)
  ELSE LET slash == FirstSlash(i.t)
           rest == IF StartsWith(i.t, "@") /\ slash # 0 THEN From(i.t, slash + 1) ELSE i.t
           cut == FirstSlash(rest)
           known == Exists(c.fs, Join(i.p, i.t)) \/ (HasStr(g.j, "name") /\ Val(g.j, "name")[2] = i.t)
           sub == IF cut = 0 THEN "." ELSE "." \o From(rest, cut)
           full == IF i.q \o i.f = "" THEN sub ELSE (IF sub = "." THEN "./" ELSE sub) \o i.q \o i.f
           ts == ExportsTargets(Val(g.j, "exports"), full, {c.o.cond[k] : k \in 1..Len(c.o.cond)})
       IN  IF cut = 0 /\ ~known THEN Fail(NotFound)
           ELSE IF ts.k = "err" THEN Fail(ts.m)
           ELSE LET to == [k \in 1..Len(ts.v) |-> Info(g.dir, Parse(ts.v[k]), i.n)]
                    hit == {k \in 1..Len(to) : Inside(to[k].t) /\ IsFile(c.fs, PathAt(to[k]))}
                IN  IF hit = {} THEN NotExported(i.t) ELSE Go(to[Min(hit)])

(***************************************************************************************************)
(* imports field                                                                                    *)
(***************************************************************************************************)
RECURSIVE Imports(_, _, _)
Imports(c, g, i) ==
  IF g.k # "pkg" \/ ~StartsWith(i.t, "#") \/ ~UsableField(g.j, "imports") THEN Go(i)
  ELSE LET ts == ImportsTargets(Val(g.j, "imports"), i.t, {c.o.cond[k] : k \in 1..Len(c.o.cond)}) IN
       IF ts.k = "err" THEN Fail(ts.m)
       ELSE IF ts.v = <<>> THEN NotExported(i.t)
       ELSE IF i.n > MaxDepth THEN Fail(Cycle)
       ELSE LET r == Parse(ts.v[1])
                own == r.q = "" /\ r.f = ""
                to == [p |-> g.dir, t |-> r.t, q |-> IF own THEN i.q ELSE r.q, f |-> IF own THEN i.f ELSE r.f,
                       n |-> i.n + 1]
            IN  CASE Kind(to.t) = "bare" -> Go(to)
                  [] Kind(to.t) = "internal" -> IF Len(to.t) > MaxTarget THEN Fail(Cycle) ELSE Imports(c, g, to)
                  [] OTHER -> IF Inside(to.t) /\ IsFile(c.fs, PathAt(to)) THEN Go(to) ELSE NotExported(i.t)

(***************************************************************************************************)
(* node_modules                                                                                     *)
(***************************************************************************************************)
ModuleName(t) ==
  LET cuts == SetToSortSeq(At(t, "/"), <)
      k == IF StartsWith(t, "@") THEN 2 ELSE 1
  IN  IF Len(cuts) < k THEN t ELSE UpTo(t, cuts[k] - 1)

(* What one node_modules directory (i.p) gives: Go means it has nothing, look further up.           *)
InModules(c, i) ==
  LET mod == Join(i.p, ModuleName(i.t))
      g == Load(c, mod)
      own == Load(c, Join(i.p, i.t))
  IN  IF g.k = "err" THEN Fail(g.m)
      ELSE IF own.k = "err" THEN Fail(own.m)
      ELSE IF ~IsDir(c.fs, mod) /\ ~(g.k = "pkg" /\ NamesPackage(g, i.t))
      THEN AsFile(c, i)
      ELSE LET r1 == Exports(c, g, i)
               r2 == IF r1.s = "go" THEN Imports(c, g, r1.i) ELSE r1
               i3 == IF r2.s = "go" /\ Kind(r2.i.t) = "bare" THEN [r2.i EXCEPT !.t = "./" \o r2.i.t] ELSE r2.i
               r3 == IF r2.s = "go" THEN BrowserField(c, own, i3) ELSE r2
               r4 == IF r3.s = "go" THEN AsFile(c, r3.i) ELSE r3
               r5 == IF r4.s = "go" THEN AsDir(c, r4.i) ELSE r4
           IN  IF r5.s = "err" /\ r5.m = NotFound THEN Go(i) ELSE r5

RECURSIVE Up(_, _, _, _)
Up(c, i, dirs, k) ==
  IF k > Len(dirs) THEN Fail(NotFound)
  ELSE LET m == Join(dirs[k], Modules) IN
       IF ~IsDir(c.fs, m) THEN Up(c, i, dirs, k + 1)
       ELSE LET r == InModules(c, [i EXCEPT !.p = m]) IN
            IF r.s = "go" THEN Up(c, i, dirs, k + 1) ELSE r

AsModules(c, i) == Up(c, i, Chain(i.p), 1)

(***************************************************************************************************)
(* One resolution, alias first                                                                      *)
(***************************************************************************************************)
Failed(i) == "Resolve '" \o i.t \o i.q \o i.f \o "' failed in '" \o PathText(i.p) \o "'"

RECURSIVE Resolving(_, _), Alias(_, _, _)

Alias(c, i, k) ==
  IF k > Len(c.o.alias) THEN Go(i)
  ELSE LET from == c.o.alias[k][1]
           to == c.o.alias[k][3]
       IN  IF ~StartsWith(i.t, from) THEN Alias(c, i, k + 1)
           ELSE IF c.o.alias[k][2] = "ign" THEN Ignored
           ELSE IF StartsWith(i.t, to) THEN Alias(c, i, k + 1)
           ELSE LET r == Resolving(c, [i EXCEPT !.t = to \o From(i.t, Len(from) + 1), !.n = i.n + 1])
                IN  IF Over(r) THEN r ELSE Alias(c, i, k + 1)

Rest(c, i) ==
  LET g == Load(c, IF Kind(i.t) = "bare" THEN i.p ELSE PathAt(i))
      r1 == IF g.k = "err" THEN Fail(g.m) ELSE Imports(c, g, i)
      r2 == IF r1.s = "go" THEN BrowserField(c, g, r1.i) ELSE r1
  IN  IF r2.s # "go" THEN r2
      ELSE IF Kind(r2.i.t) \in {"bare", "internal"} THEN AsModules(c, r2.i)
      ELSE LET r3 == AsFile(c, r2.i) IN IF r3.s = "go" THEN AsDir(c, r3.i) ELSE r3

Resolving(c, i) ==
  IF i.n > MaxDepth THEN Fail(Cycle)
  ELSE LET r1 == IF \E k \in 1..Len(i.p) : i.p[k] = Modules THEN Go(i) ELSE Alias(c, i, 1)
           rel == IF r1.s = "go" /\ c.o.pr /\ Kind(i.t) = "bare"
                  THEN Resolving(c, [i EXCEPT !.t = "./" \o i.t]) ELSE r1
           r == IF r1.s # "go" THEN r1
                ELSE IF rel.s # "go" /\ Over(rel) THEN rel
                ELSE Rest(c, i)
       IN  IF r.s = "err" /\ (r.m = NotFound \/ (r.m = Cycle /\ i.n = 0)) THEN Fail(Failed(i)) ELSE r

(***************************************************************************************************)
(* tsconfig                                                                                         *)
(***************************************************************************************************)
RECURSIVE Merge(_, _)
Merge(a, b) ==
  IF IsObj(a) /\ IsObj(b)
  THEN LET old == [k \in 1..Len(a[2]) |->
                     IF HasKey(b, a[2][k][1]) THEN <<a[2][k][1], Merge(a[2][k][2], Val(b, a[2][k][1]))>> ELSE a[2][k]]
           new == SelectSeq(b[2], LAMBDA e : ~HasKey(a, e[1]))
       IN  <<"o", old \o new>>
  ELSE IF Tag(a) = "z" THEN b ELSE a

RECURSIVE TsFile(_, _, _)
TsFile(c, loc, depth) ==
  LET w == Walk(c.fs, loc) IN
  IF depth > MaxDepth \/ ~IsFileNode(c.fs, w) THEN Err(AnyMsg)
  ELSE IF c.fs[w].t # "j" \/ Tag(c.fs[w].j) = "bad" THEN Err(AnyMsg)
  ELSE LET j == c.fs[w].j IN
       IF ~HasStr(j, "extends") THEN Ok(j)
       ELSE LET r == Resolving(c, Info(Chain(loc)[2], Parse(Val(j, "extends")[2]), 0)) IN
            IF r.s = "ign" THEN Err(AnyMsg)
            ELSE IF r.s = "err" THEN Ok(j)
            ELSE LET base == TsFile(c, r.p, depth + 1) IN
                 IF base.k = "err" THEN base ELSE Ok(Merge(j, base.v))

GoodPaths(v) == IsObj(v) /\ \A i \in 1..Len(v[2]) : Tag(v[2][i][2]) = "a" /\ \A k \in 1..Len(v[2][i][2][2]) : IsStr(v[2][i][2][2][k])

StarAt(s) == Min0(At(s, "*"))

(* What `*` stands for: <<text>>, or <<>> if the pattern does not match.                            *)
StarMatch(pattern, t) ==
  LET k == StarAt(pattern)
      a == UpTo(pattern, k - 1)
      b == From(pattern, k + 1)
  IN  IF pattern = t THEN <<"">>
      ELSE IF k = 0 \/ Len(t) < Len(pattern) \/ ~StartsWith(t, a) \/ ~EndsWith(t, b) THEN <<>>
      ELSE <<SubSeq(t, k, Len(t) - Len(b))>>

(* Patterns that can match the same request are ordered: exact first, then by prefix length.        *)
Before(a, b) == (StarAt(a) = 0 /\ StarAt(b) # 0) \/ (StarAt(a) # 0 /\ StarAt(b) # 0 /\ StarAt(a) > StarAt(b))

(* A location of a path pattern: `*` is replaced in what the location adds to the base.               *)
Located(base, loc, star) ==
  LET b == PathText(base)
      x == PathText(Join(base, loc))
  IN  IF StartsWith(x, b) THEN b \o Subst(From(x, Len(b) + 1), "*", star) ELSE Subst(x, "*", star)

RECURSIVE TryPaths(_, _, _, _)
TryPaths(c, i, cands, k) ==
  IF k > Len(cands) THEN Go(i)
  ELSE LET r == Resolving(c, [p |-> cands[k], t |-> "", q |-> i.q, f |-> i.f, n |-> 0]) IN
       IF Success(r) THEN r ELSE TryPaths(c, i, cands, k + 1)

WithTsConfig(c, i) ==
  LET loc == PathOf(c.o.ts)
      ts == TsFile(c, loc, 0)
      co == IF HasKey(ts.v, "compilerOptions") THEN Val(ts.v, "compilerOptions") ELSE <<"o", <<>>>>
      hasBase == HasKey(co, "baseUrl")
      hasPaths == HasKey(co, "paths")
  IN  IF ts.k = "err" THEN Fail(ts.m)
      ELSE IF hasBase /\ ~HasStr(co, "baseUrl") THEN Fail(AnyMsg)
      ELSE IF hasPaths /\ ~GoodPaths(Val(co, "paths")) THEN Fail(AnyMsg)
      ELSE IF ~hasBase \/ ~hasPaths THEN Resolving(c, i)
      ELSE LET es == Val(co, "paths")[2]
               base == Join(Chain(loc)[2], Val(co, "baseUrl")[2])
               hits == {k \in 1..Len(es) : StarMatch(es[k][1], i.t) # <<>>}
               order == SetToSortSeq(hits, LAMBDA a, b : Before(es[a][1], es[b][1]))
               At1(k) == [x \in 1..Len(es[k][2][2]) |->
                            PathOf(Located(base, es[k][2][2][x][2], StarMatch(es[k][1], i.t)[1]))]
               r == TryPaths(c, i, FlattenSeq([x \in 1..Len(order) |-> At1(order[x])]), 1)
           IN  IF r.s = "go" THEN Resolving(c, i) ELSE r

(***************************************************************************************************)
(* The public call                                                                                  *)
(***************************************************************************************************)
Resolve(c, dir, request) ==
  LET i == Info(PathOf(dir), Parse(request), 0)
      r == IF c.o.ts = "" THEN Resolving(c, i) ELSE WithTsConfig(c, i)
  IN  CASE r.s = "ign" -> [k |-> "ign"]
        [] r.s = "err" -> [k |-> "err", m |-> r.m]
        [] r.s = "ok" -> [k |-> "ok", q |-> r.q, f |-> r.f, raw |-> r.p,
                          p |-> IF c.o.sym THEN NodePath(c.fs, Walk(c.fs, r.p)) ELSE Lexical(r.p)]
=============================================================================
