------------------------------- MODULE Worlds -------------------------------
(* Exhaustive families of small worlds.  Each world is a file tree, resolvers and calls, in the form  *)
(* lib/scn.py describes; TLC writes the family out, every world is built on disk, run through the     *)
(* real resolver, and its recorded run is judged by Conform.  Nothing in a family is sampled.         *)
EXTENDS Histories

(***************************************************************************************************)
(* C08: every map of at most three keys, in every order                                              *)
(***************************************************************************************************)
KeyTable ==       \* key -> target; every target names a file of its own
  <<<<"./a", "./t1.js">>, <<"./a/b", "./t2.js">>, <<"./a/b/c", "./t3.js">>, <<"./a/", "./f1/">>, <<"./a/b/", "./f2/">>, <<"./", "./f3/">>,
    <<"./a/*", "./p1/*.js">>, <<"./a/b*", "./p2/*.js">>, <<"./*", "./p3/*.js">>, <<"./a*", "./p4/*/*.js">>, <<"./a/b/*", "./p5/*">>, <<"./b", "./t4.js">>>>

KeySubs == {"a", "b", "a/b", "a/b/c", "a/bb", "a/c", "ab", "c", "a/b/c.js", "a/b.js", "a/b/"}

KeyFiles ==
  <<F("/m/node_modules/foo/t1.js"), F("/m/node_modules/foo/t2.js"), F("/m/node_modules/foo/t3.js"), F("/m/node_modules/foo/t4.js"),
    D("/m/node_modules/foo/f1"), F("/m/node_modules/foo/f1/b"), F("/m/node_modules/foo/f1/c"), F("/m/node_modules/foo/f1/bb"), F("/m/node_modules/foo/f1/b.js"),
    D("/m/node_modules/foo/f2"), F("/m/node_modules/foo/f2/c"), F("/m/node_modules/foo/f2/c.js"),
    D("/m/node_modules/foo/f3"), F("/m/node_modules/foo/f3/b"), F("/m/node_modules/foo/f3/ab"), F("/m/node_modules/foo/f3/c"), D("/m/node_modules/foo/f3/a"),
    F("/m/node_modules/foo/f3/a/b"), F("/m/node_modules/foo/f3/a/c"),
    D("/m/node_modules/foo/p1"), F("/m/node_modules/foo/p1/b.js"), F("/m/node_modules/foo/p1/c.js"), F("/m/node_modules/foo/p1/bb.js"),
    D("/m/node_modules/foo/p1/b"), F("/m/node_modules/foo/p1/b/c.js"),
    D("/m/node_modules/foo/p2"), F("/m/node_modules/foo/p2/b.js"), F("/m/node_modules/foo/p2/.js"), D("/m/node_modules/foo/p2/c"),
    D("/m/node_modules/foo/p3"), F("/m/node_modules/foo/p3/b.js"), F("/m/node_modules/foo/p3/a.js"), F("/m/node_modules/foo/p3/c.js"), F("/m/node_modules/foo/p3/ab.js"),
    D("/m/node_modules/foo/p3/a"), F("/m/node_modules/foo/p3/a/b.js"), F("/m/node_modules/foo/p3/a/c.js"),
    D("/m/node_modules/foo/p4"), D("/m/node_modules/foo/p4/b"), F("/m/node_modules/foo/p4/b/b.js"), F("/m/node_modules/foo/p4/.js"),
    D("/m/node_modules/foo/p5"), F("/m/node_modules/foo/p5/c"), F("/m/node_modules/foo/p5/c.js")>>

ModDir == <<D(""), D("/m"), D("/m/node_modules"), D("/m/node_modules/foo")>>

KeyWorld(ks) ==
  World(ModDir \o KeyFiles \o <<J("/m/node_modules/foo/package.json",
                                 O(<<<<"name", S("foo")>>, <<"exports", O([i \in 1..Len(ks) |-> <<KeyTable[ks[i]][1], S(KeyTable[ks[i]][2])>>])>>>>))>>,
        Opts, [i \in 1..Len(SetToSeq(KeySubs)) |-> Q("/m", "foo/" \o SetToSeq(KeySubs)[i])])

Keys(n) == {KeyWorld(ks) : ks \in Arrangements(1..Len(KeyTable), n) \ {<<>>}}

(* The same with an imports map.                                                                     *)
ImportsKeyWorld(ks) ==
  World(<<D(""), D("/m"), D("/m/node_modules"), D("/m/node_modules/foo")>> \o KeyFiles \o
        <<J("/m/node_modules/foo/package.json",
            O(<<<<"imports", O([i \in 1..Len(ks) |-> <<"#" \o SubSeq(KeyTable[ks[i]][1], 3, Len(KeyTable[ks[i]][1])), S(KeyTable[ks[i]][2])>>])>>>>))>>,
        Opts, [i \in 1..Len(SetToSeq(KeySubs)) |-> Q("/m/node_modules/foo", "#" \o SetToSeq(KeySubs)[i])])

ImportsKeys(n) == {ImportsKeyWorld(ks) : ks \in {k \in Arrangements(1..Len(KeyTable), n) : k # <<>> /\ \A i \in 1..Len(k) : KeyTable[k[i]][1] # "./"}}

(***************************************************************************************************)
(* C09: every conditional mapping of bounded depth                                                   *)
(***************************************************************************************************)
CondKeys == {"x", "y", "default"}
Leaf == {S("./1.js"), S("./2.js"), S("./3.js"), Z}
Leaf2 == {S("./4.js"), S("./none.js")}
Inner == {O([i \in 1..Len(ks) |-> <<ks[i], v[i]>>]) : <<ks, v>> \in
            UNION {{<<ks, v>> : v \in [1..Len(ks) -> Leaf2]} : ks \in Arrangements(CondKeys, 2)}}
Arrays == {A(<<>>), A(<<S("./none.js"), S("./1.js")>>), A(<<S("./1.js"), S("./2.js")>>), A(<<O(<<<<"x", S("./3.js")>>>>), S("./2.js")>>), A(<<Z, S("./2.js")>>),
           A(<<O(<<<<"default", S("./3.js")>>, <<"x", S("./1.js")>>>>), S("./2.js")>>)}

(* small: leaves and inner objects in maps of up to two keys; arrays and leaves in maps of up to three *)
CondMaps ==
  {O([i \in 1..Len(ks) |-> <<ks[i], v[i]>>]) : <<ks, v>> \in
      UNION {{<<ks, v>> : v \in [1..Len(ks) -> {S("./1.js"), Z} \cup Inner]} : ks \in Arrangements(CondKeys, 2)}}
  \cup {O([i \in 1..Len(ks) |-> <<ks[i], v[i]>>]) : <<ks, v>> \in
      UNION {{<<ks, v>> : v \in [1..Len(ks) -> {S("./1.js"), S("./none.js")} \cup Arrays]} : ks \in {k \in Arrangements(CondKeys, 3) : Len(k) = 3}}}
CondSets == {<<>>, <<"x">>, <<"y">>, <<"x", "y">>}

CondFiles == <<F("/m/node_modules/foo/1.js"), F("/m/node_modules/foo/2.js"), F("/m/node_modules/foo/3.js"), F("/m/node_modules/foo/4.js")>>

CondWorld(m) ==
  [fs |-> ModDir \o CondFiles \o <<J("/m/node_modules/foo/package.json", O(<<<<"exports", m>>>>))>>,
   res |-> [i \in 1..4 |-> [Opts EXCEPT !.cond = SetToSeq(CondSets)[i]]],
   ev |-> [i \in 1..4 |-> QR(i, "/m", "foo")]]

Conds == {CondWorld(m) : m \in CondMaps}

(***************************************************************************************************)
(* C10: every target of up to five segments, through exact, folder and pattern keys                  *)
(***************************************************************************************************)
Segs == {"..", ".", "", "x", ".y"}
RECURSIVE JoinSegs(_)
JoinSegs(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o "/" \o JoinSegs(Tail(s))

(* A file e.js wherever a target can lead.                                                           *)
InsideFiles ==
  <<F("/e.js"), F("/m/e.js"), F("/m/node_modules/e.js"), F("/m/node_modules/foo/e.js"), D("/m/node_modules/foo/x"), F("/m/node_modules/foo/x/e.js"),
    D("/m/node_modules/foo/.y"), F("/m/node_modules/foo/.y/e.js"), D("/m/node_modules/foo/x/x"), F("/m/node_modules/foo/x/x/e.js"),
    D("/m/node_modules/foo/x/.y"), F("/m/node_modules/foo/x/.y/e.js"), D("/m/node_modules/foo/.y/x"), F("/m/node_modules/foo/.y/x/e.js"),
    D("/m/node_modules/x"), F("/m/node_modules/x/e.js"), D("/m/x"), F("/m/x/e.js")>>

InsideWorlds(n) ==
  {LET t == JoinSegs(s) \o (IF s = <<>> THEN "" ELSE "/") IN
   World(ModDir \o InsideFiles \o
         <<J("/m/node_modules/foo/package.json",
             O(<<<<"exports", O(<<<<"./exact", S("./" \o t \o "e.js")>>, <<"./star/*", S("./" \o t \o "*.js")>>, <<"./fold/", S("./" \o t)>>,
                                  <<"./all/*", S("./*")>>, <<"./up/", S("./x/")>>, <<"./root", S("/R/m/" \o t \o "e.js")>>, <<"./root/*", S("/R/m/" \o t \o "*.js")>>, <<"./roots/", S("/R/m/" \o t)>>,
                                  <<"./bare", S(t \o "e.js")>>, <<"./bare/*", A(<<S(t \o "*.js")>>)>>>>)>>,
                 <<"imports", O(<<<<"#exact", S("./" \o t \o "e.js")>>, <<"#star/*", S("./" \o t \o "*.js")>>, <<"#fold/", S("./" \o t)>>, <<"#all/*", S("./*")>>>>)>>>>))>>,
         Opts,
         <<Q("/m", "foo/exact"), Q("/m", "foo/star/e"), Q("/m", "foo/fold/e.js"), Q("/m", "foo/all/" \o t \o "e.js"), Q("/m", "foo/up/" \o t \o "e.js"), Q("/m", "foo/root"), Q("/m", "foo/root/e"), Q("/m", "foo/roots/e.js"), Q("/m", "foo/bare"), Q("/m", "foo/bare/e"),
           Q("/m/node_modules/foo", "#exact"), Q("/m/node_modules/foo", "#star/e"), Q("/m/node_modules/foo", "#fold/e.js"), Q("/m/node_modules/foo", "#all/" \o t \o "e.js")>>)
   : s \in UpToLen(Segs, n)}

(***************************************************************************************************)
(* C03, C23: every request of up to five characters                                                  *)
(***************************************************************************************************)
Alphabet == {"a", ".", "/", "#", "?"}
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE s[1] \o Cat(Tail(s))

FormTree ==
  <<D(""), D("/m"), F("/m/a"), F("/m/a.js"), D("/m/d"), F("/m/d/a.js"), F("/m/d/index.js"), F("/m/index.js"), F("/index.js"), F("/a"),
    D("/m/d/node_modules"), F("/m/d/node_modules/a.js"), D("/m/node_modules"), D("/m/node_modules/a"), F("/m/node_modules/a/a.js"), F("/m/node_modules/a/index.js"),
    D("/m/d/..."), F("/m/d/.../a.js"), F("/m/d/.a.js"), F("/m/d/..a.js"), F("/m/d/#a.js"), F("/m/d/a..js"), D("/m/node_modules/..."), F("/m/node_modules/.../a.js"), F("/m/node_modules/.../index.js"),
    F("/m/node_modules/.a.js"), F("/m/node_modules/..a.js"), F("/m/node_modules/a..js"), D("/m/node_modules/.a"), F("/m/node_modules/.a/a.js"), D("/m/d/.a"), F("/m/d/.a/a.js"), D("/m/node_modules/..a"), F("/m/node_modules/..a/a.js"),
    J("/m/package.json", O(<<<<"imports", O(<<<<"#a", S("./a.js")>>, <<"#aa", S("a")>>, <<"#.", S("./d/a.js")>>>>)>>>>))>>

FormWorlds(n) ==
  {World(FormTree, Opts, <<Q("/m/d", Cat(s)), Q("/m", Cat(s)), Q("/m/d/", Cat(s) \o "a"), Q("/m/d/none", Cat(s)), Q("/m/d/../d/.", "./" \o Cat(s))>>) : s \in UpToLen(Alphabet, n)}

(***************************************************************************************************)
(* C04, C05: which files exist decides                                                               *)
(***************************************************************************************************)
ExtLists == {<<".js", ".ts">>, <<".ts", ".js">>, <<"", ".js">>, <<".js", "">>, <<>>, <<".js.ts", ".js">>}
FilePool == <<F("/m/x"), F("/m/x.js"), F("/m/x.ts"), F("/m/x.js.js"), F("/m/x.js.ts"), F("/m/d/index.js"), F("/m/d/index.ts"), F("/m/d.js"), F("/m/d.ts")>>

ExtWorlds ==
  {World(<<D(""), D("/m"), D("/m/d")>> \o [i \in 1..Len(SetToSeq(fs)) |-> SetToSeq(fs)[i]], [Opts EXCEPT !.ext = ex, !.enf = en],
         <<Q("/m", "./x"), Q("/m", "./x.js"), Q("/m", "./d"), Q("/m", "./d/"), Q("/m/d", "../x"), Q("/m", "./d/index"), Q("/m/d", ".")>>)
   : fs \in SUBSET {FilePool[i] : i \in 1..Len(FilePool)}, ex \in ExtLists, en \in {"none", "true", "false"}}

MainValues == {<<>>, <<S("a")>>, <<S("./b.js")>>, <<S("./sub")>>, <<S("none")>>, <<S(".")>>, <<S("../x")>>, <<S("")>>, <<Z>>, <<S("./sub/")>>}
Field(k, v) == IF v = <<>> THEN <<>> ELSE <<<<k, v[1]>>>>
MainWorlds ==
  {World(<<D(""), D("/m"), D("/m/d"), D("/m/d/sub"), F("/m/x.js"), J("/m/d/package.json", O(Field("main", m1) \o Field("module", m2)))>>
         \o (IF has[1] THEN <<F("/m/d/a.js"), F("/m/d/b.js")>> ELSE <<>>) \o (IF has[2] THEN <<F("/m/d/index.js"), F("/m/d/main2.js")>> ELSE <<>>)
         \o (IF has[3] THEN <<J("/m/d/sub/package.json", O(<<<<"main", S("s.js")>>>>)), F("/m/d/sub/s.js")>> ELSE <<>>)
         \o (IF has[4] THEN <<F("/m/d/sub/index.js")>> ELSE <<>>),
         [Opts EXCEPT !.mfields = mf, !.mfiles = mi],
         <<Q("/m", "./d"), Q("/m", "./d/sub"), Q("/m/d/sub", "..")>>)
   : m1 \in MainValues, m2 \in MainValues, has \in [1..4 -> BOOLEAN], mf \in {<<"main">>, <<"module", "main">>, <<"main", "module">>}, mi \in {<<"index">>, <<"main2", "index">>}}

(***************************************************************************************************)
(* C06: what each node_modules on the way up holds                                                   *)
(***************************************************************************************************)
At(nm, k) ==
  CASE k = "no" -> <<>>
    [] k = "empty" -> <<D(nm)>>
    [] k = "file" -> <<D(nm), F(nm \o "/foo.js")>>
    [] k = "dir" -> <<D(nm), D(nm \o "/foo"), F(nm \o "/foo/index.js"), F(nm \o "/foo/x.js")>>
    [] k = "hollow" -> <<D(nm), D(nm \o "/foo")>>
    [] k = "both" -> <<D(nm), F(nm \o "/foo.js"), D(nm \o "/foo"), F(nm \o "/foo/index.js")>>
    [] k = "filehollow" -> <<D(nm), F(nm \o "/foo.js"), D(nm \o "/foo")>>
    [] k = "main" -> <<D(nm), D(nm \o "/foo"), J(nm \o "/foo/package.json", O(<<<<"main", S("y")>>>>)), F(nm \o "/foo/y.js")>>
    [] k = "badmain" -> <<D(nm), D(nm \o "/foo"), J(nm \o "/foo/package.json", O(<<<<"main", S("none")>>>>))>>
    [] k = "exports" -> <<D(nm), D(nm \o "/foo"), J(nm \o "/foo/package.json", O(<<<<"exports", O(<<<<".", S("./y.js")>>>>)>>>>)), F(nm \o "/foo/y.js"), F(nm \o "/foo/x.js")>>
    [] k = "closed" -> <<D(nm), D(nm \o "/foo"), J(nm \o "/foo/package.json", O(<<<<"exports", O(<<<<"./z", S("./y.js")>>>>)>>>>)), F(nm \o "/foo/index.js")>>
    [] k = "broken" -> <<D(nm), D(nm \o "/foo"), J(nm \o "/foo/package.json", <<"bad">>), F(nm \o "/foo/index.js")>>
    [] k = "notdir" -> <<F(nm)>>
    [] k = "scope" -> <<D(nm), D(nm \o "/foo"), D(nm \o "/foo/x"), F(nm \o "/foo/x/index.js"), F(nm \o "/foo.ts")>>
HoldKinds == {"no", "empty", "file", "dir", "hollow", "both", "filehollow", "main", "badmain", "exports", "closed", "broken", "notdir", "scope"}
NmWorlds ==
  {World(<<D(""), D("/m"), D("/m/d")>> \o At("/node_modules", k1) \o At("/m/node_modules", k2) \o At("/m/d/node_modules", k3), Opts,
         <<Q("/m/d", "foo"), Q("/m/d", "foo/x"), Q("/m", "foo/x.js"), Q("/m/d/none/none", "foo/"), Q("/m/node_modules/foo", "foo"), Q("", "foo"), Q("/m/d/node_modules", "foo/y")>>)
   : k1 \in HoldKinds, k2 \in HoldKinds, k3 \in HoldKinds}

(***************************************************************************************************)
(* C12: every list of at most two or three alias entries                                             *)
(***************************************************************************************************)
AliasFroms == {"foo", "fo", "bar", "./x", "a"}
AliasTos == {"foo", "bar", "./x", "/R/m/y", "none", "foo/x", "."}
AliasEntries == {<<f, "to", t>> : f \in AliasFroms, t \in AliasTos} \cup {<<f, "ign", "">> : f \in {"foo", "bar"}}
AliasTree ==
  <<D(""), D("/m"), F("/m/x.js"), F("/m/y.js"), F("/m/yx.js"), D("/m/y"), F("/m/y/x.js"), F("/m/index.js"),
    D("/m/node_modules"), D("/m/node_modules/foo"), F("/m/node_modules/foo/index.js"), F("/m/node_modules/foo/x.js"), F("/m/node_modules/bar.js"), F("/m/node_modules/barx.js"),
    D("/m/a_node_modules_b"), F("/m/a_node_modules_b/x.js")>>
AliasWorlds(n) ==
  {World(AliasTree, [Opts EXCEPT !.alias = as],
         <<Q("/m", "foo"), Q("/m", "foo/x"), Q("/m", "bar"), Q("/m", "./x"), Q("/m", "foox"), Q("/m", "bar?q#f"), Q("/m/node_modules/foo", "bar"), Q("/m/node_modules/foo", "./x"), Q("/m/a_node_modules_b", "foo")>>)
   : as \in Arrangements(AliasEntries, n)}

(***************************************************************************************************)
(* C13: every browser map of at most two entries                                                     *)
(***************************************************************************************************)
BrowserKeys == {"foo", "./x", "./x.js", "./d/y.js", "x", "./d", "bar"}
BrowserVals == {B(FALSE), B(TRUE), S("bar"), S("./x"), S("./z.js"), S("foo"), S("./d/y.js"), S("./none")}
BrowserTree(m, main) ==
  <<D(""), D("/m"), F("/m/x.js"), F("/m/z.js"), D("/m/d"), F("/m/d/y.js"), F("/m/d/index.js"), D("/m/e"), F("/m/e/x.js"), J("/m/e/package.json", O(<<>>)),
    D("/m/node_modules"), D("/m/node_modules/foo"), F("/m/node_modules/foo/index.js"), F("/m/node_modules/foo/x.js"), F("/m/node_modules/bar.js"),
    J("/m/package.json", O(<<<<"browser", m>>, <<"main", S(main)>>>>))>>
BrowserWorlds ==
  {[fs |-> BrowserTree(O([i \in 1..Len(ks) |-> <<ks[i], v[i]>>]), main),
    res |-> <<[Opts EXCEPT !.bf = TRUE], Opts>>,
    ev |-> <<QR(1, "/m", "foo"), QR(1, "/m", "./x"), QR(1, "/m", "./x.js"), QR(1, "/m/d", "./y"), QR(1, "/m/d", "foo"), QR(1, "/m", "./d"), QR(1, "", "./m"), QR(1, "/m", "."),
             QR(1, "/m/e", "./x"), QR(1, "/m/e", "foo"), QR(1, "/m/node_modules/foo", "./x"), QR(1, "/m/node_modules/foo", "bar"), QR(1, "/m/d", "../x"),
             QR(2, "/m", "foo"), QR(2, "/m", "./x"), QR(2, "/m", ".")>>]
   : <<ks, v, main>> \in UNION {{<<ks, v, main>> : v \in [1..Len(ks) -> BrowserVals], main \in {"x", "./d/y.js"}} : ks \in Arrangements(BrowserKeys, 2)}}

(***************************************************************************************************)
(* C15: every set of at most three path patterns                                                     *)
(***************************************************************************************************)
TsTable == <<<<"*", <<"./p1/*">>>>, <<"foo", <<"./p2">>>>, <<"foo/*", <<"none/*", "./p3/*">>>>, <<"f*", <<"./p4/*.js", "./p10/*/*">>>>, <<"f*o*", <<"./p9/*">>>>, <<"foo/x*", <<"./p5/*">>>>, <<"*.js", <<"./p6/*.ts">>>>,
             <<"fo*x", <<"./p7/*/q", "/R/m/p7/*">>>>, <<"./x", <<"./p8">>>>, <<"foo/xx", <<"./none">>>>, <<"f*o/xx", <<"./p9/*">>>>>>
TsTree ==
  <<D(""), D("/m"), F("/m/x.js"), D("/m/node_modules"), D("/m/node_modules/foo"), F("/m/node_modules/foo/index.js"), F("/m/node_modules/foo/x.js"), F("/m/node_modules/foo/xx.js"),
    D("/m/b"), D("/m/b/p1"), F("/m/b/p1/foo.js"), D("/m/b/p1/foo"), F("/m/b/p1/foo/x.js"), D("/m/b/p2"), F("/m/b/p2/index.js"), D("/m/b/p3"), F("/m/b/p3/x.js"), F("/m/b/p3/xx.js"),
    D("/m/b/p4"), F("/m/b/p4/oo.js"), D("/m/b/p4/oo"), F("/m/b/p4/oo/x.js"), D("/m/b/p5"), F("/m/b/p5/x.js"), F("/m/b/p5/xx.js"), D("/m/b/p6"), F("/m/b/p6/a.ts"), D("/m/p7"), F("/m/p7/x.js"), F("/m/b/p8.js"), D("/m/b/p9"), F("/m/b/p9/o.js"), D("/m/b/p10"), D("/m/b/p10/z"), F("/m/b/p10/z/z.js")>>
TsWorlds(n) ==
  {World(TsTree \o <<J("/m/tsconfig.json", O(<<<<"compilerOptions", O(base \o <<<<"paths", O([i \in 1..Len(ks) |-> <<TsTable[ks[i]][1], A(Map(S, TsTable[ks[i]][2]))>>])>>>>)>>>>))>>,
         [Opts EXCEPT !.ts = "/R/m/tsconfig.json"],
         <<Q("/m", "foo"), Q("/m", "foo/x"), Q("/m", "foo/xx"), Q("/m", "foo/xxx"), Q("/m", "a.js"), Q("/m/b", "./x"), Q("/m", "./x"), Q("/m", "foo/"), Q("/m", "none"), Q("/m", "foo?q#f"), Q("/m", "foo*"), Q("/m", "fz")>>)
   : <<ks, base>> \in Arrangements(1..Len(TsTable), n) \X {<<<<"baseUrl", S("./b")>>>>, <<<<"baseUrl", S("b/p1/..")>>>>, <<>>}}

(***************************************************************************************************)
(* C01, C22: every placement of a few links                                                          *)
(***************************************************************************************************)
LinkTargets == {"/R/m/d", "d", "d/e", "../m/d/a.js", "/R/m/none", "l1", "l2", "..", "/R/m/d/a.js", "./d/../d"}
LinkWorlds ==
  {[fs |-> <<D(""), D("/m"), D("/m/d"), F("/m/d/a.js"), F("/m/d/index.js"), D("/m/d/e"), F("/m/d/e/a.js"), F("/m/b.js"), F("/m/a.js"), D("/m/d/node_modules"), F("/m/d/node_modules/a.js"), D("/m/node_modules"),
             L("/m/l1", t1), L("/m/l2.js", t2), L("/m/node_modules/foo", t3)>>,
    res |-> <<Opts, [Opts EXCEPT !.sym = FALSE]>>,
    ev |-> LET c(r) == <<QR(r, "/m", "./l1"), QR(r, "/m", "./l1/a"), QR(r, "/m", "./l2"), QR(r, "/m/l1", "./a"), QR(r, "/m/l1", "a"), QR(r, "/m", "foo"), QR(r, "/m", "foo/a"),
                         QR(r, "/m/node_modules/foo", "a"), QR(r, "/m/d", "../l1/./a"), QR(r, "/m", "./l2/l1/a"), QR(r, "/m", "./l1/../a"), QR(r, "/m", "./l1/../b"), QR(r, "/m/l1", "../index.js"), QR(r, "/m/l1", ".."), QR(r, "/m", "foo/../a")>>
           IN  c(1) \o c(2)]
   : t1 \in LinkTargets, t2 \in LinkTargets, t3 \in {x \in LinkTargets : x \notin {"d", "d/e", "./d/../d", "../m/d/a.js", "l1", "l2"}} \cup {"../d", "../l1", "foo"}}

(***************************************************************************************************)
(* C07: what a package, its parent and its subdirectories say                                        *)
(***************************************************************************************************)
ExportsKinds == <<<<>>, <<Z>>, <<S("./y.js")>>, <<O(<<<<".", S("./y.js")>>>>)>>, <<O(<<<<"./x", S("./y.js")>>>>)>>, <<O(<<<<"./sub/", S("./sub/")>>>>)>>, <<O(<<<<"./*", S("./*.js")>>>>)>>,
                  <<O(<<<<"node", S("./y.js")>>>>)>>, <<O(<<<<".", A(<<S("./none.js"), S("./y.js")>>)>>, <<"./x.js", Z>>>>)>>, <<A(<<>>)>>, <<O(<<<<".", S("./none.js")>>, <<"./sub/x.js", S("./sub/x.js")>>>>)>>>>
NameKinds == <<<<>>, <<S("foo")>>, <<S("bar")>>, <<S("foo/sub")>>>>
Desc(e, n, main) == O(Field("name", n) \o Field("exports", e) \o Field("main", main))
ExportsWorlds ==
  {World(ModDir \o <<F("/m/node_modules/foo/y.js"), F("/m/node_modules/foo/x.js"), F("/m/node_modules/foo/index.js"), D("/m/node_modules/foo/sub"), F("/m/node_modules/foo/sub/x.js"), F("/m/node_modules/foo/sub/index.js")>>
         \o <<J("/m/node_modules/foo/package.json", Desc(ExportsKinds[e], NameKinds[n], <<S("x.js")>>))>>
         \o (IF s = 0 THEN <<>> ELSE <<J("/m/node_modules/foo/sub/package.json", Desc(ExportsKinds[s], NameKinds[ns], <<>>))>>)
         \o (IF p = 0 THEN <<>> ELSE <<J("/m/package.json", Desc(ExportsKinds[p], NameKinds[np], <<>>)), F("/m/y.js"), F("/m/x.js"), F("/m/index.js")>>),
         Opts,
         <<Q("/m", "foo"), Q("/m", "foo/x"), Q("/m", "foo/x.js"), Q("/m", "foo/sub"), Q("/m", "foo/sub/x.js"), Q("/m", "foo/sub/x"), Q("/m", "foo/"), Q("/m", "foo/y.js"),
           Q("/m/node_modules/foo", "foo/x"), Q("/m/node_modules/foo/sub", "foo"), Q("/m/node_modules/foo/sub", "foo/sub/x.js"), Q("/m", "bar"), Q("/m", "bar/x"), Q("/m/node_modules/foo", "./x")>>)
   : e \in 1..Len(ExportsKinds), n \in 1..3, s \in {0, 1, 4, 7}, ns \in {1, 2, 4}, p \in {0, 3, 6, 7}, np \in {2, 3}}

(***************************************************************************************************)
(* C11: which description governs "#" requests                                                       *)
(***************************************************************************************************)
ImportValues == {<<>>, <<S("./y.js")>>, <<S("foo")>>, <<S("foo/x")>>, <<S("#b")>>, <<S("#a")>>, <<Z>>, <<S("../y.js")>>, <<S("./none.js")>>, <<A(<<S("./none.js"), S("./y.js")>>)>>,
                 <<S("./d")>>, <<O(<<<<"node", S("foo")>>>>)>>, <<O(<<<<"zz", S("./y.js")>>>>)>>, <<S("./y.js?t#u")>>, <<S("bar")>>}
ImportsWorlds ==
  {World(<<D(""), D("/m"), F("/m/y.js"), F("/y.js"), D("/m/d"), F("/m/d/y.js"), F("/m/d/index.js"), D("/m/node_modules"), D("/m/node_modules/foo"), F("/m/node_modules/foo/index.js"), F("/m/node_modules/foo/x.js"),
           J("/m/node_modules/foo/package.json", IF ex THEN O(<<<<"exports", O(<<<<".", S("./index.js")>>>>)>>>>) ELSE O(<<>>)),
           J("/m/package.json", O(<<<<"name", S("bar")>>, <<"exports", S("./y.js")>>, <<"imports", O(Field("#a", a) \o Field("#b", b) \o <<<<"#c/*", S("./*")>>>>)>>>>))>>
         \o (CASE inner = "no" -> <<>> [] inner = "plain" -> <<J("/m/d/package.json", O(<<>>))>>
               [] inner = "own" -> <<J("/m/d/package.json", O(<<<<"imports", O(<<<<"#a", S("./y.js")>>>>)>>>>))>>),
         Opts,
         <<Q("/m", "#a"), Q("/m", "#b"), Q("/m/d", "#a"), Q("/m/d", "#b"), Q("/m", "#c/y.js"), Q("/m", "#c/y"), Q("/m", "#z"), Q("/m/node_modules/foo", "#a"), Q("/m", "#a?q"), Q("/m", "#b#f")>>)
   : a \in ImportValues, b \in ImportValues, inner \in {"no", "plain", "own"}, ex \in BOOLEAN}

(***************************************************************************************************)
(* C16, C24: where descriptions lie                                                                  *)
(***************************************************************************************************)
DescKinds == <<<<>>, <<O(<<>>)>>, <<O(<<<<"sideEffects", B(FALSE)>>>>)>>, <<O(<<<<"sideEffects", B(TRUE)>>, <<"main", S("y.js")>>>>)>>, <<O(<<<<"sideEffects", A(<<S("a.js"), S("*.css")>>)>>>>)>>,
               <<O(<<<<"sideEffects", A(<<>>)>>>>)>>, <<O(<<<<"sideEffects", S("no")>>>>)>>, <<<<"bad">>>>, <<O(<<<<"exports", S("./y.js")>>, <<"sideEffects", B(FALSE)>>>>)>>, <<O(<<<<"exports", <<"n", 1>>>>>>)>>,
               <<O(<<<<"imports", O(<<<<"a", S("./y.js")>>>>)>>>>)>>, <<A(<<>>)>>, <<Z>>, <<S("x")>>,
               <<A(<<O(<<<<"main", S("./y.js")>>, <<"sideEffects", B(TRUE)>>>>)>>)>>>>
DescAt(p, k) == IF DescKinds[k] = <<>> THEN <<>> ELSE <<J(p, DescKinds[k][1])>>
DescWorlds ==
  {[fs |-> <<D(""), D("/m"), F("/m/y.js"), F("/m/index.js"), D("/m/d"), F("/m/d/y.js"), F("/m/d/index.js"), D("/m/d/node_modules"), D("/m/d/node_modules/q"), F("/m/d/node_modules/q/index.js")>>
           \o DescAt("/m/package.json", k1) \o DescAt("/m/d/package.json", k2) \o (IF alt THEN DescAt("/m/d/pkg.json", k1) ELSE <<>>),
    res |-> <<Opts, [Opts EXCEPT !.df = "pkg.json"], [Opts EXCEPT !.df = ""]>>,
    ev |-> LET c(r) == <<[SE("/m/d") EXCEPT !.r = r], [SE("/m/d/y.js") EXCEPT !.r = r], [SE("/m/d/none/none") EXCEPT !.r = r], [SE("/m") EXCEPT !.r = r], [SE("/m/d/node_modules/q") EXCEPT !.r = r],
                         [SE("") EXCEPT !.r = r], QR(r, "/m", "./d"), QR(r, "/m/d", "./y"), QR(r, "/m/d", "q"), QR(r, "/m/d", ".."), QR(r, "/m", "./d/package")>>
           IN  c(1) \o c(2) \o c(3)]
   : k1 \in 1..Len(DescKinds), k2 \in 1..Len(DescKinds), alt \in BOOLEAN}

(***************************************************************************************************)
(* C02: every small knot of rewrites                                                                 *)
(***************************************************************************************************)
KnotVals == {S("a"), S("b"), S("#a"), S("#b"), S("./x"), S("./d"), S("."), S("./")}
KnotWorlds ==
  {[fs |-> <<D(""), D("/m"), F("/m/x.js"), D("/m/d"), J("/m/package.json", O(<<<<"name", S("a")>>, <<"main", mn>>, <<"browser", O(<<<<"a", v1>>, <<"./x", v2>>>>)>>,
              <<"imports", O(<<<<"#a", v1>>, <<"#b", v2>>>>)>>>>)), J("/m/d/package.json", O(<<<<"main", mn>>>>)), D("/m/node_modules"), D("/m/node_modules/b"),
              J("/m/node_modules/b/package.json", O(<<<<"main", S("../a")>>, <<"browser", O(<<<<"../a", S("./")>>>>)>>>>))>>,
    res |-> <<[Opts EXCEPT !.bf = TRUE, !.alias = <<<<"a", "to", al>>, <<"b", "to", "a">>>>], [Opts EXCEPT !.bf = TRUE, !.pr = TRUE, !.alias = <<<<"./a", "to", al>>>>]>>,
    ev |-> LET c(r) == <<QR(r, "/m", "a"), QR(r, "/m", "#a"), QR(r, "/m", "#b"), QR(r, "/m", "./x"), QR(r, "", "./m"), QR(r, "/m", "b"), QR(r, "/m", "./d"), QR(r, "/m/d", ".."), QR(r, "/m", "./a")>> IN c(1) \o c(2)]
   : v1 \in KnotVals, v2 \in KnotVals, mn \in {S("."), S("./d"), S("../d"), S("./x"), S("..")}, al \in {"b", "#a", "./a", "./x", "ba"}}

(***************************************************************************************************)
(* C26: every path of up to six segments                                                             *)
(***************************************************************************************************)
NormWorlds(n) ==
  {LET ps == SetToSeq({<<first>> \o s : first \in {"a", "..", ".", "", "..."}}) IN
   World(<<D(""), F("/a")>>, Opts, [i \in 1..Len(ps) |-> [op |-> "normalize", d |-> "/" \o JoinSegs(ps[i])]])
   : s \in UpToLen({"a", "..", ".", "", "..."}, n)}

(***************************************************************************************************)
(* C16: every value of sideEffects, lists of up to three                                             *)
(***************************************************************************************************)
Items == {S("a.js"), S("./b"), S(""), S("*"), Z, <<"n", 1>>, B(TRUE), A(<<>>), A(<<S("a.js")>>), O(<<>>)}
EffectWorlds ==
  {[fs |-> <<D(""), D("/m"), F("/m/index.js"), F("/m/a.js"), J("/m/package.json", O(pre \o <<<<"sideEffects", v>>>>))>>, res |-> <<Opts>>,
    ev |-> <<SE("/m"), SE("/m/a.js"), Q("/m", "./a"), Q("", "./m"), SE("/m")>>]
   : pre \in {<<>>, <<<<"name", S("m")>>, <<"main", S("./a")>>>>}, v \in Items \cup {A(s) : s \in UpToLen(Items, 3)}}

(***************************************************************************************************)
(* C27: every option left out, what the documented defaults make of a tree                           *)
(***************************************************************************************************)
WithDefault(c) == O(<<<<c, S("./y.js")>>, <<"default", S("./z.js")>>>>)
BareFields ==
  {<<>>} \cup {<<<<f, S("./y")>>>> : f \in {"main", "module", "browser", "jsnext:main", "style", "name", "index", "types"}}
  \cup {<<<<f, S("./y")>>, <<"main", S("./z")>>>> : f \in {"module", "browser", "jsnext:main"}}
  \cup {<<<<"exports", WithDefault(c)>>>> : c \in {"node", "import", "require", "browser", "module", "development", "production", "webpack", "types"}}
  \cup {<<<<"imports", O(<<<<"#x", WithDefault(c)>>>>)>>>> : c \in {"node", "import", "require", "browser", "module", "development"}}
  \cup {<<<<"browser", O(<<<<"./y.js", S("./z.js")>>, <<"foo", B(FALSE)>>>>)>>, <<"main", S("./y")>>>>, <<<<"sideEffects", B(FALSE)>>>>}
BareNames == <<"x", "x.js", "x.json", "x.node", "x.ts", "x.mjs", "x.cjs">>
BareRes == <<Opts @@ [dflt |-> 1], Opts @@ [dflt |-> 2]>>
BareCalls(r) == <<QR(r, "/m", "./x"), QR(r, "/m", "x"), QR(r, "/m", "foo"), QR(r, "/m", "./node_modules/foo"), QR(r, "/m/node_modules/foo", "#x"), QR(r, "/m/node_modules/foo", "./y"),
                  QR(r, "/m/node_modules/foo", "foo"), QR(r, "/m", "./l"), QR(r, "/m", "./k/y"), [SE("/m/node_modules/foo/y.js") EXCEPT !.r = r], QR(r, "/m", "foo/y"), QR(r, "/m", "@/y")>>
BareWorlds ==
  {[fs |-> <<D(""), D("/m"), J("/m/tsconfig.json", O(<<<<"compilerOptions", O(<<<<"baseUrl", S(".")>>, <<"paths", O(<<<<"@/*", A(<<S("./node_modules/foo/*")>>)>>>>)>>>>)>>>>)),
             D("/m/node_modules"), D("/m/node_modules/foo"), F("/m/node_modules/foo/y.js"), F("/m/node_modules/foo/z.js")>>
           \o Map(F, Map(LAMBDA n : "/m/node_modules/foo/" \o n, ix)) \o (IF desc = "" THEN <<>> ELSE <<J("/m/node_modules/foo/" \o desc, O(fields))>>)
           \o Map(LAMBDA k : F("/m/" \o BareNames[k]), SetToSeq(ns)) \o <<[t |-> "l", p |-> "/R/m/l", to |-> "node_modules/foo/y.js"], [t |-> "l", p |-> "/R/m/k", to |-> "node_modules/foo"]>>,
    res |-> BareRes, ev |-> BareCalls(1) \o BareCalls(2)]
   : <<ns, fields, desc, ix>> \in
       ((SUBSET (1..Len(BareNames))) \X {<<>>} \X {""} \X {<<"index.js">>, <<"index.json", "main.js">>})
       \cup ({{1, 3}} \X BareFields \X {"package.json", "pkg.json", "bower.json"} \X {<<>>, <<"index.js">>, <<"index.node">>, <<"index.ts", "main.js">>})}

Family ==
  LET f == IOEnv.VP_FAMILY IN
  CASE f = "keys" -> Keys(2) [] f = "keys3" -> Keys(3)
    [] f = "ikeys" -> ImportsKeys(2) [] f = "ikeys3" -> ImportsKeys(3)
    [] f = "conds" -> Conds
    [] f = "inside" -> InsideWorlds(4) [] f = "inside5" -> InsideWorlds(5)
    [] f = "forms" -> FormWorlds(4) [] f = "forms5" -> FormWorlds(5)
    [] f = "ext" -> ExtWorlds [] f = "main" -> MainWorlds
    [] f = "nm" -> NmWorlds
    [] f = "alias" -> AliasWorlds(2)
    [] f = "browser" -> BrowserWorlds
    [] f = "ts" -> TsWorlds(2) [] f = "ts3" -> TsWorlds(3)
    [] f = "links" -> LinkWorlds
    [] f = "exports" -> ExportsWorlds [] f = "imports" -> ImportsWorlds
    [] f = "norm" -> NormWorlds(4)
    [] f = "desc" -> DescWorlds [] f = "knot" -> KnotWorlds
    [] f = "lives" -> LifeWorlds(9, {<<0, 1000, 2000>>, <<5000, 6000, 4000>>}) \cup BackWorlds(9)
    [] f = "lives12" -> LifeWorlds(12, {<<0, 1000, 2000>>, <<5000, 6000, 4000>>, <<5000, 3000, 2000>>, <<5000, 4999, 6000>>}) \cup BackWorlds(12)
    [] f = "marks" -> MarkWorlds
    [] f = "orders" -> OrderWorlds({1, 3, 5, 7}, {1, 4, 5}, {1, 5, 6}) [] f = "orders8" -> OrderWorlds(1..8, 1..8, 1..8)
    [] f = "shares" -> ShareWorlds({3, 4, 7}, {4, 5}, {1}, {2, 5}) [] f = "shares8" -> ShareWorlds({1, 3, 4, 5, 7, 8}, {4, 5, 8}, {1, 4}, {1, 5, 7})
    [] f = "beside" -> BesideWorlds [] f = "bare" -> BareWorlds [] f = "effects" -> EffectWorlds
    [] f = "additions" -> AddWorlds

VARIABLE w
Init == w = 0
Next == w = 0 /\ w' = 1 /\ LET X == SetToSeq(Family) IN ndJsonSerialize(IOEnv.VP_OUT, X) /\ PrintT(<<"WORLDS", Len(X)>>)
Spec == Init /\ [][Next]_w
=============================================================================
