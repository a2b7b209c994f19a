-------------------------------- MODULE Props --------------------------------
(* The listed properties as statements about the specification, each in other words than the          *)
(* operators of Resolver.tla: what must be true of the answer x of a call ev in a configuration c,     *)
(* whatever the search did to find it.  Conform evaluates them on every call it judges, TLC thereby    *)
(* checks them over the exhaustive families of Worlds.tla and over the sampled worlds.                 *)
EXTENDS System

Ask(c, d, q) == Resolve(c, d, q)
With(c, field, v) == [c EXCEPT !.o[field] = v]

SameResult(a, b) ==        \* kind, path, query and fragment, not the wording of an error
  a.k = b.k /\ (a.k = "ok" => a.p = b.p /\ a.q = b.q /\ a.f = b.f)
Good(a) == a.k \in {"ok", "ign"}

PlainOpts(o) == o.alias = <<>> /\ ~o.bf /\ ~o.pr /\ o.ts = ""
IsLink(n) == n.t = "l"
Links(fs) == {i \in 1..Len(fs) : IsLink(fs[i])}
Descs(c) == {i \in 1..Len(c.fs) : c.fs[i].t \in {"f", "j"} /\ c.fs[i].n = c.o.df}
DescJson(n) == IF n.t = "j" THEN n.j ELSE <<"bad">>
AllGood(c) == \A i \in Descs(c) : DescriptionError("", DescJson(c.fs[i])) = ""
NoField(c, key) == \A i \in Descs(c) : ~UsableField(DescJson(c.fs[i]), key)
NoBrowser(c) == \A i \in Descs(c) : ~(HasKey(DescJson(c.fs[i]), "browser") /\ IsObj(Val(DescJson(c.fs[i]), "browser")))

(* The tree without entries of a name.                                                                *)
Without(fs, name) == [i \in 1..Len(fs) |-> IF fs[i].t = "d" THEN [fs[i] EXCEPT !.e = [x \in DOMAIN @ \ {name} |-> @[x]]] ELSE fs[i]]

IsPathKind(t) == Kind(t) \in {"relative", "absolute"}

(***************************************************************************************************)
(* Files and paths                                                                                   *)
(***************************************************************************************************)
(* The lexical form of a path with ".." behind a link can differ from the path.                       *)
LexicalDiffers(c, x) == ~c.o.sym /\ Walk(c.fs, PathOf(x.p)) # Walk(c.fs, x.raw)

C01(c, ev, x) ==
  x.k = "ok" =>
    /\ IF c.o.sym THEN NodePath(c.fs, Walk(c.fs, PathOf(x.p))) = x.p ELSE Lexical(PathOf(x.p)) = x.p
    /\ IsFile(c.fs, PathOf(x.p)) \/ LexicalDiffers(c, x)

C03(c, ev, x) ==
  LET r == Parse(ev.q) IN
  /\ r.t \o r.q \o r.f = ev.q
  /\ r.q = "" \/ StartsWith(r.q, "?")
  /\ r.f = "" \/ StartsWith(r.f, "#")
  /\ ~Has(r.t, "?") /\ ~Has(r.q, "#") /\ At(r.t, "#") \subseteq {1}
  /\ (x.k = "ok" /\ ev.q # r.t /\ NoField(c, "exports")) =>
       LET y == Ask(c, ev.d, r.t) IN
       /\ y.k = "ok" /\ y.p = x.p
       /\ (y.q \o y.f = "") => x.q = r.q /\ x.f = r.f

Candidates(c, p) ==
  (IF Enforced(c.o) THEN <<>> ELSE <<p>>) \o [k \in 1..Len(c.o.ext) |-> AppendText(p, c.o.ext[k])]
FirstFile(c, ps) ==
  LET at == {k \in 1..Len(ps) : IsFile(c.fs, ps[k])} IN IF at = {} THEN 0 ELSE Walk(c.fs, ps[Min(at)])

C04(c, ev, x) ==
  LET r == Parse(ev.q)
      p == PathAt(Info(PathOf(ev.d), r, 0))
      n == FirstFile(c, Candidates(c, p))
  IN  (PlainOpts(c.o) /\ IsPathKind(r.t) /\ AllGood(c)) =>
        IF n # 0 THEN x.k = "ok" /\ Walk(c.fs, x.raw) = n
        ELSE x.k = "ok" => IsDir(c.fs, p)

C05(c, ev, x) ==
  LET r == Parse(ev.q)
      p == PathAt(Info(PathOf(ev.d), r, 0))
      text == PathText(p)
      own == IsFile(c.fs, Join(p, c.o.df)) /\ c.o.df # ""
      j == IF own THEN DescJson(c.fs[Walk(c.fs, Join(p, c.o.df))]) ELSE <<"z">>
      self == {k \in 1..Len(c.o.mfields) : HasStr(j, c.o.mfields[k]) /\ SamePath(Join(p, "./" \o Val(j, c.o.mfields[k])[2]), p)}
      last == IF self = {} THEN Len(c.o.mfields) ELSE Min(self) - 1
      mains == SelectSeq([k \in 1..last |-> IF HasStr(j, c.o.mfields[k]) THEN Val(j, c.o.mfields[k])[2] ELSE "?"], LAMBDA m : m # "?")
      viaMain == {k \in 1..Len(mains) : Ask(c, text, "./" \o mains[k]).k = "ok"}
      files == FlattenSeq([k \in 1..Len(c.o.mfiles) |-> Candidates(c, Join(p, "./" \o c.o.mfiles[k]))])
      n == FirstFile(c, files)
      odd(m) == Has(m, "?") \/ Has(m, "#")
  IN  (PlainOpts(c.o) /\ IsPathKind(r.t) /\ AllGood(c) /\ FirstFile(c, Candidates(c, p)) = 0 /\ IsDir(c.fs, p)
       /\ \A k \in 1..Len(mains) : ~odd(mains[k])) =>
        IF viaMain # {} THEN x.k = "ok" /\ x.p = Ask(c, text, "./" \o mains[Min(viaMain)]).p
        ELSE IF n # 0 THEN x.k = "ok" /\ Walk(c.fs, x.raw) = n
        ELSE x.k = "err"

(***************************************************************************************************)
(* Packages                                                                                          *)
(***************************************************************************************************)
C06(c, ev, x) ==
  LET r == Parse(ev.q)
      ch == Chain(PathOf(ev.d))
      try(k) == Ask(c, "/", PathText(Join(Join(ch[k], Modules), r.t)) \o r.q \o r.f)
      hit == {k \in 1..Len(ch) : IsDir(c.fs, Join(ch[k], Modules)) /\ try(k).k = "ok"}
  IN  (PlainOpts(c.o) /\ Kind(r.t) = "bare" /\ ~Has(ev.d, "#") /\ ~Has(ev.d, "?") /\ AllGood(c) /\ NoField(c, "exports") /\ NoField(c, "imports")) =>
        IF hit = {} THEN x.k = "err" ELSE SameResult(x, try(Min(hit)))

(* The package a bare request enters first, if it has an exports map and nothing nearer interferes.   *)
Entered(c, ev) ==
  LET r == Parse(ev.q)
      ch == Chain(PathOf(ev.d))
      dirs == [k \in 1..Len(ch) |-> Join(ch[k], Modules)]
      name == ModuleName(r.t)
      holds == {k \in 1..Len(ch) : Exists(c.fs, Join(dirs[k], name)) \/ \E e \in 1..Len(c.o.ext) : Exists(c.fs, AppendText(Join(dirs[k], r.t), c.o.ext[e]))}
      pkg == Join(dirs[Min(holds)], name)
      named == \E i \in Descs(c) : HasStr(DescJson(c.fs[i]), "name") /\ NamesPackage([j |-> DescJson(c.fs[i])], r.t) /\ c.fs[i].up # Walk(c.fs, pkg)
  IN  IF Kind(r.t) = "bare" /\ PlainOpts(c.o) /\ AllGood(c) /\ holds # {} /\ IsDir(c.fs, pkg) /\ IsFile(c.fs, Join(pkg, c.o.df)) /\ c.o.df # "" /\ ~named
         /\ UsableField(DescJson(c.fs[Walk(c.fs, Join(pkg, c.o.df))]), "exports")
      THEN <<pkg>> ELSE <<>>

C07(c, ev, x) ==
  LET pk == Entered(c, ev) IN
  pk # <<>> =>
    LET pkg == pk[1]
        r == Parse(ev.q)
        rest == From(r.t, Len(ModuleName(r.t)) + 1)
        sub == (IF rest = "" /\ r.q \o r.f # "" THEN "./" ELSE "." \o rest) \o r.q \o r.f
        ts == ExportsTargets(Val(DescJson(c.fs[Walk(c.fs, Join(pkg, c.o.df))]), "exports"), sub, {c.o.cond[k] : k \in 1..Len(c.o.cond)})
        open == IF ts.k = "err" THEN <<>> ELSE SelectSeq(ts.v, LAMBDA t : Inside(Parse(t).t) /\ IsFile(c.fs, Join(pkg, Parse(t).t)))
        ends == StartsWith(r.t, "@") /\ EndsWith(r.t, "/")
    IN  IF open = <<>> THEN x.k = "err" ELSE x.k = "ok" /\ Walk(c.fs, x.raw) = Walk(c.fs, Join(pkg, Parse(open[1]).t))

(* Reordering keys, or removing keys that do not decide, changes nothing.                             *)
C08(c, ev, x) ==
  LET r == Parse(ev.q)
      k == IF StartsWith(r.t, "#") THEN "imports" ELSE "exports"
      cond == {c.o.cond[i] : i \in 1..Len(c.o.cond)}
      sub == "." \o From(r.t, Len(ModuleName(r.t)) + 1)
      T(j) == IF k = "imports" THEN ImportsTargets(j, r.t, cond) ELSE ExportsTargets(j, sub, cond)
  IN  \A i \in Descs(c) :
        LET j == DescJson(c.fs[i]) IN
        (AllGood(c) /\ UsableField(j, k) /\ IsObj(Val(j, k)) /\ (k = "exports" => SubpathMap(Val(j, k)))) =>
          LET es == Val(j, k)[2]
              all == T(Val(j, k))
              alone == {n \in 1..Len(es) : T(<<"o", <<es[n]>>>>) = all}
          IN  /\ T(<<"o", Reverse(es)>>) = all
              /\ all # Ok(<<>>) => alone # {}
              /\ \A n \in 1..Len(es) :               \* dropping a key changes something only if that key decides alone
                   T(<<"o", SelectSeq(es, LAMBDA e : e # es[n])>>) # all => n \in alone

C09(c, ev, x) ==
  /\ SameResult(x, Ask(With(c, "cond", Append(c.o.cond, "never-used")), ev.d, ev.q))
  /\ SameResult(x, Ask(With(c, "cond", Reverse(c.o.cond)), ev.d, ev.q))

C10(c, ev, x) ==
  Links(c.fs) = {} /\ x.k = "ok" =>
    /\ Entered(c, ev) # <<>> => PathUnder(PathOf(x.p), PathOf(Lexical(Entered(c, ev)[1])))
    /\ LET r == Parse(ev.q)
           near == Nearest(c, PathAt(Info(PathOf(ev.d), r, 0)))
       IN  (PlainOpts(c.o) /\ Kind(r.t) = "internal" /\ near # <<>>) =>
             LET j == DescJson(c.fs[Walk(c.fs, Join(near[1], c.o.df))]) IN
             UsableField(j, "imports") =>
               LET ts == ImportsTargets(Val(j, "imports"), r.t, {c.o.cond[k] : k \in 1..Len(c.o.cond)}) IN
               (ts.k = "ok" /\ ts.v # <<>> /\ IsPathKind(ts.v[1])) => PathUnder(PathOf(x.p), PathOf(Lexical(near[1])))

C11(c, ev, x) ==
  LET r == Parse(ev.q)
      near == Nearest(c, PathAt(Info(PathOf(ev.d), r, 0)))
  IN  (PlainOpts(c.o) /\ Kind(r.t) = "internal" /\ AllGood(c) /\ near # <<>>) =>
        LET j == DescJson(c.fs[Walk(c.fs, Join(near[1], c.o.df))]) IN
        UsableField(j, "imports") =>
          LET ts == ImportsTargets(Val(j, "imports"), r.t, {c.o.cond[k] : k \in 1..Len(c.o.cond)}) IN
          IF ts.k = "err" \/ ts.v = <<>> THEN x.k = "err"
          ELSE LET t == Parse(ts.v[1])
                   next == IF t.q \o t.f = "" THEN ts.v[1] \o r.q \o r.f ELSE ts.v[1]
               IN
               CASE IsPathKind(t.t) -> IF Inside(t.t) /\ IsFile(c.fs, Join(near[1], t.t)) THEN x.k = "ok" /\ Walk(c.fs, x.raw) = Walk(c.fs, Join(near[1], t.t)) ELSE x.k = "err"
                 [] Kind(t.t) = "bare" -> LET y == Ask(c, PathText(near[1]), next) IN x.k = y.k /\ (x.k = "ok" => x.p = y.p)
                 [] OTHER -> (Len(t.t) < MaxTarget /\ x.k = "ok") => Ask(c, PathText(near[1]), next).k = "ok"

(***************************************************************************************************)
(* Rewrites                                                                                          *)
(***************************************************************************************************)
C12(c, ev, x) ==
  LET r == Parse(ev.q)
      as == c.o.alias
      app == IF \E k \in 1..Len(PathOf(ev.d)) : PathOf(ev.d)[k] = Modules THEN {}
             ELSE {k \in 1..Len(as) : StartsWith(r.t, as[k][1]) /\ (as[k][2] = "ign" \/ ~StartsWith(r.t, as[k][3]))}
      to(k) == as[k][3] \o From(r.t, Len(as[k][1]) + 1)
      re(k) == IF as[k][2] = "ign" THEN [k |-> "ign"] ELSE Ask(c, ev.d, to(k) \o r.q \o r.f)
      clean == \A k \in app : as[k][2] = "ign" \/ Parse(to(k)).t = to(k)
      hit == {k \in app : Good(re(k))}
  IN  (c.o.ts = "" /\ ~c.o.pr /\ clean) =>
        IF hit # {} THEN SameResult(x, re(Min(hit))) \/ (x.k = "err" /\ \E k \in app : k < Min(hit) /\ re(k).k = "err")
        ELSE IF app = {} THEN SameResult(x, Ask(With(c, "alias", <<>>), ev.d, ev.q))
        ELSE SameResult(x, Ask(With(c, "alias", <<>>), ev.d, ev.q)) \/ x.k = "err"    \* an error: some rewrite was in a cycle

C13(c, ev, x) ==
  /\ (~c.o.bf \/ NoBrowser(c)) => SameResult(x, Ask(With(c, "bf", ~c.o.bf), ev.d, ev.q)) \/ ~NoBrowser(c)
  /\ (x.k = "ign" /\ \A k \in 1..Len(c.o.alias) : c.o.alias[k][2] # "ign") =>
       c.o.bf /\ \E i \in Descs(c) : LET j == DescJson(c.fs[i]) IN
                   HasKey(j, "browser") /\ IsObj(Val(j, "browser")) /\ \E e \in 1..Len(Val(j, "browser")[2]) : Val(j, "browser")[2][e][2] = <<"b", FALSE>>
  /\ c.o.bf => LET y == Ask(With(c, "bf", FALSE), ev.d, ev.q) IN
       SameResult(x, y) \/ ~NoBrowser(c)

C14(c, ev, x) ==
  LET r == Parse(ev.q)
      off == Ask(With(c, "pr", FALSE), ev.d, ev.q)
  IN  (c.o.pr /\ c.o.alias = <<>>) =>
        IF Kind(r.t) # "bare" THEN SameResult(x, off)
        ELSE IF c.o.ts # "" THEN TRUE
        ELSE LET rel == Ask(With(c, "pr", FALSE), ev.d, "./" \o ev.q) IN
             IF Good(rel) THEN SameResult(x, rel) ELSE SameResult(x, off) \/ (x.k = "err" /\ off.k = "err")

C15(c, ev, x) ==
  LET ts == IF c.o.ts = "" THEN Err("") ELSE TsFile(c, PathOf(c.o.ts), 0)
      r == Parse(ev.q)
      off == Ask(With(c, "ts", ""), ev.d, ev.q)
  IN  (c.o.ts # "") =>
        IF ts.k = "err" THEN x.k = "err"
        ELSE LET co == IF HasKey(ts.v, "compilerOptions") THEN Val(ts.v, "compilerOptions") ELSE <<"z">>
                 usable == HasStr(co, "baseUrl") /\ HasKey(co, "paths") /\ GoodPaths(Val(co, "paths"))
                 es == Val(co, "paths")[2]
             IN  IF ~HasKey(co, "baseUrl") \/ ~HasKey(co, "paths")
                 THEN (~HasKey(co, "baseUrl") \/ HasStr(co, "baseUrl")) /\ (~HasKey(co, "paths") \/ GoodPaths(Val(co, "paths"))) => SameResult(x, off)
                 ELSE IF ~usable THEN x.k = "err"
                 ELSE LET hits == {k \in 1..Len(es) : StarMatch(es[k][1], r.t) # <<>>} IN
                      IF hits = {} THEN SameResult(x, off)
                      ELSE x.k = "err" => off.k = "err"         \* a request that resolves without paths still resolves

(***************************************************************************************************)
(* Descriptions, errors, forms                                                                       *)
(***************************************************************************************************)
C16(c, ev, x) ==
  ev.op = "side" =>
    LET ch == Chain(PathOf(ev.d))
        has(k) == c.o.df # "" /\ IsFile(c.fs, Join(ch[k], c.o.df))
    IN  IF x.k = "none" THEN \A k \in 1..Len(ch) : ~has(k)
        ELSE \E k \in 1..Len(ch) :
               /\ has(k) /\ \A i \in 1..(k - 1) : ~has(i)
               /\ LET j == DescJson(c.fs[Walk(c.fs, Join(ch[k], c.o.df))]) IN
                  IF DescriptionError("", j) # "" THEN x.k = "err"
                  ELSE x.k = "some" /\ SamePath(PathOf(x.p), Join(ch[k], c.o.df))
                       /\ (x.se[1] = "none" <=> ~HasKey(j, "sideEffects"))
                       /\ (x.se[1] = "bool" => Val(j, "sideEffects") = <<"b", x.se[2]>>)
                       /\ (x.se[1] = "array" => Len(Val(j, "sideEffects")[2]) = Len(x.se[2]))

ErrorForms == {"Package path ", "Parse ", "Export ", "Expected ", "Default condition ", "Only requesting ", "Request should ", "Import field ", "Imports field "}
C21(c, ev, x) ==
  (ev.op = "resolve" /\ x.k = "err") =>
    \/ x.m = AnyMsg
    \/ c.o.ts = "" /\ x.m = "Resolve '" \o ev.q \o "' failed in '" \o ev.d \o "'"
    \/ c.o.ts # "" /\ x.m = "Resolve '" \o ev.q \o "' failed in '" \o ev.d \o "'"
    \/ \E s \in ErrorForms : StartsWith(x.m, s)
    \/ EndsWith(x.m, " had some wrong")

C23(c, ev, x) ==
  LET r == Parse(ev.q)
      bare == Kind(r.t) \in {"bare", "windows"}
      beside == [i \in 1..Len(c.fs) |->           \* nothing but node_modules and descriptions beside the importer
                   IF i = Walk(c.fs, PathOf(ev.d)) /\ c.fs[i].t = "d"
                   THEN [c.fs[i] EXCEPT !.e = [n \in DOMAIN @ \cap {Modules, c.o.df} |-> @[n]]] ELSE c.fs[i]]
  IN  (PlainOpts(c.o) /\ AllGood(c) /\ Links(c.fs) = {}) =>
        IF ~bare /\ Kind(r.t) # "internal"
        THEN (\A k \in 1..Len(PathOf(ev.d)) : PathOf(ev.d)[k] # Modules) /\ ~(\E k \in 1..Len(PathOf(ev.q)) : PathOf(ev.q)[k] = Modules)
             /\ (x.k = "ok" => ~\E k \in 1..Len(PathOf(x.p)) : PathOf(x.p)[k] = Modules)
             => SameResult(x, Ask([c EXCEPT !.fs = Without(c.fs, Modules)], ev.d, ev.q))
        ELSE (bare /\ NoField(c, "exports") /\ NoField(c, "imports")
              /\ ~\E k \in 1..Len(PathOf(ev.d)) : PathOf(ev.d)[k] \in {Modules, "..", "."})
             => (x.k = "ok" => LET y == Ask([c EXCEPT !.fs = beside], ev.d, ev.q) IN SameResult(x, y) \/ PathUnder(x.raw, PathOf(ev.d)))

C24(c, ev, x) ==
  c.o.df = "" /\ ev.op = "resolve" => SameResult(x, Ask(With(c, "df", "no-such-description"), ev.d, ev.q))

C25(c, ev, x) ==
  ev.op = "resolve" =>
  /\ SameResult(x, Ask(With(c, "cond", Append(c.o.cond, "zz-unused")), ev.d, ev.q))
  /\ SameResult(x, Ask(With(c, "ext", Append(c.o.ext, ".zz9")), ev.d, ev.q))
  /\ SameResult(x, Ask(With(c, "mfiles", Append(c.o.mfiles, "zz-none")), ev.d, ev.q))
  /\ SameResult(x, Ask(With(c, "mfields", Append(c.o.mfields, "zzfield")), ev.d, ev.q))
  /\ SameResult(x, Ask(With(c, "alias", Append(c.o.alias, <<"zz-none", "ign", "">>)), ev.d, ev.q))
  /\ NoBrowser(c) => SameResult(x, Ask(With(c, "bf", ~c.o.bf), ev.d, ev.q))

C26(c, ev, x) ==
  LET segs == PathOf(x.p) IN
  /\ x.p = "/" \/ \A k \in 2..Len(segs) : segs[k] \notin {"", ".", ".."}
  /\ StartsWith(x.p, "/") /\ Lexical(segs) = x.p

Holds(P, c, ev, x) ==
  IF ev.op = "normalize" THEN P = "C26" => C26(c, ev, x)
  ELSE IF ev.op = "side" THEN P = "C16" => C16(c, ev, x)
  ELSE IF ev.op # "resolve" THEN TRUE
  ELSE CASE P = "C01" -> C01(c, ev, x) [] P = "C03" -> C03(c, ev, x) [] P = "C04" -> C04(c, ev, x) [] P = "C05" -> C05(c, ev, x)
         [] P = "C06" -> C06(c, ev, x) [] P = "C07" -> C07(c, ev, x) [] P = "C08" -> C08(c, ev, x) [] P = "C09" -> C09(c, ev, x)
         [] P = "C10" -> C10(c, ev, x) [] P = "C11" -> C11(c, ev, x) [] P = "C12" -> C12(c, ev, x) [] P = "C13" -> C13(c, ev, x)
         [] P = "C14" -> C14(c, ev, x) [] P = "C15" -> C15(c, ev, x) [] P = "C21" -> C21(c, ev, x) [] P = "C23" -> C23(c, ev, x)
         [] P = "C24" -> C24(c, ev, x) [] P = "C25" -> C25(c, ev, x)
         [] OTHER -> TRUE
=============================================================================
