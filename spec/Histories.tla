------------------------------ MODULE Histories ------------------------------
(* Exhaustive families of small histories: edits between calls (C17), calls after calls (C18), calls  *)
(* of resolvers that share a cache (C19), with and without an option (C14, C25).  Each call says      *)
(* which other recorded call it must agree with (.same).                                              *)
EXTENDS Build

Fresh(r) == [op |-> "new", r |-> r]                      \* resolver r is made anew
Write(p, j, m) == [op |-> "write", t |-> "j", p |-> "/R" \o p, j |-> j, m |-> m]
Erase(p) == [op |-> "rm", p |-> "/R" \o p]
On(c, r) == [c EXCEPT !.r = r]
AsIn(c, k) == [same |-> k] @@ c

(* What resolver 1 says to each call, and what a new resolver says: three events a call.               *)
Look(calls, at) ==
  [n \in 1..3 * Len(calls) |->
     LET c == calls[(n - 1) \div 3 + 1] IN
     CASE n % 3 = 1 -> Fresh(2) [] n % 3 = 2 -> On(c, 2) [] n % 3 = 0 -> AsIn(On(c, 1), at + n - 1)]

RECURSIVE Looks(_, _, _)                                \* a look, then after each edit another
Looks(calls, edits, at) ==
  Look(calls, at) \o
  (IF edits = <<>> THEN <<>> ELSE <<Head(edits)>> \o Looks(calls, Tail(edits), at + 3 * Len(calls) + 1))

(***************************************************************************************************)
(* C17: a description file through every sequence of three contents                                  *)
(***************************************************************************************************)
Lives == <<<<>>, <<O(<<>>)>>, <<O(<<<<"main", S("a")>>>>)>>, <<O(<<<<"main", S("b")>>, <<"sideEffects", B(FALSE)>>>>)>>, <<O(<<<<"exports", S("./a.js")>>>>)>>,
           <<O(<<<<"exports", O(<<<<"./a", S("./b.js")>>>>)>>>>)>>, <<O(<<<<"name", S("foo")>>, <<"exports", Z>>, <<"imports", O(<<<<"#x", S("./b.js")>>>>)>>>>)>>, <<<<"bad">>>>,
           <<O(<<<<"browser", O(<<<<"./a.js", S("./b.js")>>>>)>>, <<"sideEffects", A(<<S("a.js")>>)>>>>)>>,
           <<O(<<<<"imports", O(<<<<"#x", S("./a.js")>>>>)>>>>)>>, <<O(<<<<"exports", S("./b.js")>>>>)>>, <<O(<<<<"exports", <<"n", 1>>>>>>)>>>>
LifeTree == <<D(""), D("/m"), D("/m/node_modules"), D("/m/node_modules/foo"), F("/m/node_modules/foo/a.js"), F("/m/node_modules/foo/b.js"), F("/m/node_modules/foo/index.js")>>
LifeFile == "/m/node_modules/foo/package.json"
LifeCalls == <<Q("/m", "foo"), Q("/m", "foo/a"), Q("/m/node_modules/foo", "#x"), Q("/m", "./node_modules/foo"), SE("/m/node_modules/foo/a.js")>>

(* From one content to the next; <<>> when the file is absent before and after.                        *)
Become(p, old, new, m) == IF new = <<>> THEN (IF old = <<>> THEN <<>> ELSE <<Erase(p)>>) ELSE <<Write(p, new[1], m)>>

LifeWorlds(n, times) ==
  {[fs |-> LifeTree \o (IF Lives[k1] = <<>> THEN <<>> ELSE <<[J(LifeFile, Lives[k1][1]) EXCEPT !.m = ms[1]]>>),
    res |-> <<[Opts EXCEPT !.bf = TRUE], [Opts EXCEPT !.bf = TRUE]>>,
    ev |-> Looks(LifeCalls, Become(LifeFile, Lives[k1], Lives[k2], ms[2]) \o Become(LifeFile, Lives[k2], Lives[k3], ms[3]), 0)]
   : k1 \in 1..n, k2 \in 1..n, k3 \in 1..n, ms \in times}
(* Seen to be absent, and created again with the time it had before.                                   *)
BackWorlds(n) ==
  {[fs |-> LifeTree \o <<[J(LifeFile, Lives[k1][1]) EXCEPT !.m = 5000]>>,
    res |-> <<[Opts EXCEPT !.bf = TRUE], [Opts EXCEPT !.bf = TRUE]>>,
    ev |-> Looks(LifeCalls, <<Erase(LifeFile), Write(LifeFile, Lives[k3][1], 5000)>>, 0)]
   : k1 \in {k \in 1..n : Lives[k] # <<>>}, k3 \in {k \in 1..n : Lives[k] # <<>>}}

(* Descriptions that come and go on the way up: which one is the nearest changes.                      *)
Marks == <<<<>>, <<O(<<<<"imports", O(<<<<"#x", S("./a.js")>>>>)>>, <<"sideEffects", B(TRUE)>>>>)>>,
           <<O(<<<<"browser", O(<<<<"./a.js", S("./b.js")>>, <<"./d/e/a.js", S("./b.js")>>>>)>>, <<"imports", O(<<<<"#x", S("./b.js")>>>>)>>, <<"sideEffects", B(FALSE)>>>>)>>>>
MarkDirs == <<"/m", "/m/d", "/m/d/e">>
MarkAt(d) == MarkDirs[d] \o "/package.json"
MarkTree == <<D(""), D("/m"), F("/m/a.js"), F("/m/b.js"), D("/m/d"), F("/m/d/a.js"), F("/m/d/b.js"), D("/m/d/e"), F("/m/d/e/a.js"), F("/m/d/e/b.js")>>
MarkCalls == <<Q("/m/d/e", "#x"), SE("/m/d/e/a.js"), Q("/m/d/e", "./a"), Q("/m/d", "#x")>>
MarkEdits == {<<d, k>> : d \in 1..3, k \in 1..3}
MarkWorlds ==
  {[fs |-> MarkTree \o FlattenSeq([d \in 1..3 |-> IF st[d] = 1 THEN <<>> ELSE <<J(MarkAt(d), Marks[st[d]][1])>>]),
    res |-> <<[Opts EXCEPT !.bf = TRUE], [Opts EXCEPT !.bf = TRUE]>>,
    ev |-> Looks(MarkCalls,
                 Become(MarkAt(e1[1]), Marks[st[e1[1]]], Marks[e1[2]], 1000)
                   \o Become(MarkAt(e2[1]), IF e1[1] = e2[1] THEN Marks[e1[2]] ELSE Marks[st[e2[1]]], Marks[e2[2]], 2000), 0)]
   : st \in [1..3 -> 1..3], e1 \in MarkEdits, e2 \in MarkEdits}

(***************************************************************************************************)
(* C18: every call after every call                                                                  *)
(***************************************************************************************************)
Says == <<<<>>, <<O(<<>>)>>, <<O(<<<<"name", S("foo")>>, <<"exports", O(<<<<".", S("./a.js")>>, <<"./d", S("./d/a.js")>>>>)>>, <<"sideEffects", B(FALSE)>>>>)>>,
          <<O(<<<<"main", S("./d")>>, <<"imports", O(<<<<"#x", O(<<<<"x", S("./b.js")>>, <<"node", S("./a.js")>>>>)>>>>)>>>>)>>,
          <<O(<<<<"main", S("./a.js")>>, <<"browser", O(<<<<"./a.js", S("./b.js")>>, <<"foo", B(FALSE)>>>>)>>, <<"imports", O(<<<<"#x", O(<<<<"node", S("./b.js")>>, <<"x", S("./a.js")>>>>)>>>>)>>>>)>>,
          <<<<"bad">>>>,
          <<O(<<<<"exports", O(<<<<".", O(<<<<"x", S("./b.js")>>, <<"node", S("./a.js")>>>>)>>, <<"./*", S("./*.js")>>>>)>>>>)>>,
          <<O(<<<<"exports", O(<<<<".", O(<<<<"node", S("./b.js")>>, <<"x", S("./a.js")>>>>)>>>>)>>, <<"sideEffects", A(<<S("b.js")>>)>>>>)>>>>
SayAt(p, k) == IF Says[k] = <<>> THEN <<>> ELSE <<J(p, Says[k][1])>>
Foo == "/m/node_modules/foo"
OrderTree(f, p, q) ==
  <<D(""), D("/m"), F("/m/a.js"), F("/m/b.js"), D("/m/d"), F("/m/d/a.js"), F("/m/d/index.js"), D("/m/node_modules"), D(Foo), F(Foo \o "/a.js"), F(Foo \o "/b.js"), F(Foo \o "/index.js"),
    D(Foo \o "/d"), F(Foo \o "/d/a.js"), F(Foo \o "/d/index.js")>> \o SayAt(Foo \o "/package.json", f) \o SayAt("/m/package.json", p) \o SayAt(Foo \o "/d/package.json", q)
OrderCalls == <<Q("/m", "foo"), Q("/m", "foo/d"), Q("/m", "./a"), Q("/m", "#x"), Q("/m/d", ".."), Q(Foo, "foo"), Q(Foo \o "/d", "#x"), Q(Foo \o "/d", "./a"), SE(Foo \o "/d/none"), SE("/m"),
                Q("/m/d", "foo/a?q"), Q("/m", "none")>>

OrderWorld(f, p, q, o) ==
  LET n == Len(OrderCalls)
      own == FlattenSeq([k \in 1..n |-> <<Fresh(2), On(OrderCalls[k], 2)>>])
      pair(i, j) == <<Fresh(1), AsIn(OrderCalls[i], 2 * i), AsIn(OrderCalls[j], 2 * j), AsIn(OrderCalls[i], 2 * i)>>
  IN  [fs |-> OrderTree(f, p, q), res |-> <<o, o>>, ev |-> own \o FlattenSeq([x \in 1..n * n |-> pair((x - 1) \div n + 1, 1 + ((x - 1) % n))])]
OrderWorlds(fs, ps, qs) ==
  {OrderWorld(f, p, q, o) : f \in fs, p \in ps, q \in qs, o \in {Opts, [Opts EXCEPT !.bf = TRUE, !.cond = <<"x">>]}}

(***************************************************************************************************)
(* C19: every pair of option sets on one cache                                                       *)
(***************************************************************************************************)
Sets == <<Opts, [Opts EXCEPT !.cond = <<"x">>], [Opts EXCEPT !.cond = <<>>], [Opts EXCEPT !.ext = <<".json", ".js">>], [Opts EXCEPT !.bf = TRUE], [Opts EXCEPT !.mfields = <<>>], [Opts EXCEPT !.mfiles = <<"a">>],
          [Opts EXCEPT !.df = "pkg.json"], [Opts EXCEPT !.df = ""], [Opts EXCEPT !.alias = <<<<"foo", "to", "./a">>>>], [Opts EXCEPT !.sym = FALSE], [Opts EXCEPT !.pr = TRUE], [Opts EXCEPT !.ts = "/R/m/tsconfig.json"],
          [Opts EXCEPT !.enf = "true"]>>
ShareTree(f, p, q, x) ==
  OrderTree(f, p, q) \o SayAt(Foo \o "/pkg.json", x) \o SayAt("/m/pkg.json", x)
    \o <<F("/m/a.json"), J("/m/tsconfig.json", O(<<<<"compilerOptions", O(<<<<"baseUrl", S(".")>>, <<"paths", O(<<<<"foo", A(<<S("./b")>>)>>>>)>>>>)>>>>)), L("/m/l", "d"), F("/m/foo.js")>>
ShareCalls == <<Q("/m", "foo"), Q("/m", "foo/d"), Q("/m", "./a"), Q("/m", "#x"), Q("/m/d", ".."), Q("/m", "./l/a"), SE(Foo \o "/d/none"), Q(Foo, "#x"), Q("/m", "./node_modules/foo")>>
ShareWorld(f, p, q, x, a, b) ==
  LET n == Len(ShareCalls)
      own == [k \in 1..2 * n |-> On(ShareCalls[(k + 1) \div 2], 3 + ((k + 1) % 2))]
      both == [k \in 1..2 * n |-> AsIn(On(ShareCalls[(k + 1) \div 2], 1 + ((k + 1) % 2)), k)]
  IN  [fs |-> ShareTree(f, p, q, x), res |-> <<[Sets[a] EXCEPT !.cache = 1], [Sets[b] EXCEPT !.cache = 1], Sets[a], Sets[b]>>, ev |-> own \o both \o both]
ShareWorlds(fs, ps, qs, xs) ==
  {ShareWorld(f, p, q, x, a, b) : f \in fs, p \in ps, q \in qs, x \in xs, a \in 1..Len(Sets), b \in 1..Len(Sets)}

(***************************************************************************************************)
(* C14: what lies beside the importer and in node_modules                                            *)
(***************************************************************************************************)
BesidePool == <<F("/m/foo"), F("/m/foo.js"), F("/m/d/x.js"), F("/m/node_modules/foo/index.js"), F("/m/node_modules/foo/x.js"), F("/m/d.js"), J("/m/d/package.json", O(<<<<"main", S("x")>>>>)), F("/m/node_modules/d.js")>>
BesideOpts == {Opts, [Opts EXCEPT !.alias = <<<<"./foo", "to", "./d">>>>], [Opts EXCEPT !.alias = <<<<"./d", "ign", "">>>>],
               [Opts EXCEPT !.bf = TRUE], [Opts EXCEPT !.enf = "true"]}
BesideCalls == <<Q("/m", "foo"), Q("/m", "foo/x"), Q("/m", "d"), Q("/m", "d/x?q"), Q("/m", "d/"), Q("/m", "foo.js#f"), Q("/m/d", "x"), Q("/m", ".foo"), Q("/m", "none")>>
Rooted == <<Q("/m", "./foo"), Q("/m", ""), Q("/m", "/R/m/foo"), Q("/m", "#x"), Q("/m/d", "..")>>
BesideEv ==
  FlattenSeq([k \in 1..Len(BesideCalls) |-> <<BesideCalls[k], [BesideCalls[k] EXCEPT !.q = "./" \o @], [same |-> 3 * k - 2, rel |-> 3 * k - 1] @@ On(BesideCalls[k], 2)>>])
  \o FlattenSeq([k \in 1..Len(Rooted) |-> <<Rooted[k], AsIn(On(Rooted[k], 2), 3 * Len(BesideCalls) + 2 * k - 1)>>])
BesideWorlds ==
  {[fs |-> <<D(""), D("/m"), D("/m/d"), D("/m/node_modules"), D("/m/node_modules/foo")>> \o SetToSeq({BesidePool[k] : k \in ks})
           \o <<J("/m/package.json", O(<<<<"browser", O(<<<<"./foo.js", S("./d.js")>>, <<"foo", S("d")>>>>)>>, <<"imports", O(<<<<"#x", S("./foo.js")>>>>)>>>>))>>,
    res |-> <<o, [o EXCEPT !.pr = TRUE]>>, ev |-> BesideEv] : ks \in SUBSET (1..Len(BesidePool)), o \in BesideOpts}

(***************************************************************************************************)
(* C25: additions that do not bear on any call                                                       *)
(***************************************************************************************************)
Additions == 1..11
Add(o, k) ==
  CASE k = 1 -> [o EXCEPT !.cond = @ \o <<"zz1">>]
    [] k = 2 -> [o EXCEPT !.cond = <<"zz1", "zz2", "zz3", "zz4">> \o @]
    [] k = 3 -> [o EXCEPT !.ext = @ \o <<".zz">>]
    [] k = 4 -> [o EXCEPT !.mfiles = @ \o <<"zz">>]
    [] k = 5 -> [o EXCEPT !.mfields = @ \o <<"zz", "zz2">>]
    [] k = 6 -> [o EXCEPT !.alias = <<<<"zz", "to", "./a">>>> \o @]
    [] k = 7 -> [o EXCEPT !.alias = @ \o <<<<"./zz", "ign", "">>>>]
    [] k = 8 -> [o EXCEPT !.bf = TRUE]
    [] k = 9 -> [o EXCEPT !.ts = "/R/ts1.json"]
    [] k = 10 -> [o EXCEPT !.ts = "/R/ts2.json"]
    [] k = 11 -> [o EXCEPT !.mfiles = @ \o <<"zz", "zz2", "zz/3">>, !.mfields = @ \o <<"zz">>]
Bases == <<Opts, [Opts EXCEPT !.alias = <<<<"bar", "to", "foo">>>>, !.mfields = <<"module", "main">>], [Opts EXCEPT !.ext = <<".js">>, !.enf = "true", !.pr = TRUE], [Opts EXCEPT !.cond = <<>>, !.mfiles = <<>>],
           [Opts EXCEPT !.sym = FALSE, !.mfiles = <<"a", "index">>, !.cond = <<"x", "node">>]>>
AddCalls == <<Q("/m", "foo"), Q("/m", "foo/d"), Q("/m", "foo/a"), Q("/m", "./d"), Q("/m", "#x"), Q("/m/d", ".."), Q(Foo, "foo"), Q("/m", "bar"), Q("/m", "./a?q"), Q("/m", "none")>>
AddWorlds ==
  {[fs |-> OrderTree(f, p, q) \o <<J("/ts1.json", O(<<<<"compilerOptions", O(<<<<"baseUrl", S("./m")>>, <<"paths", O(<<<<"zz/*", A(<<S("./*")>>)>>, <<"zz", A(<<S("./a")>>)>>>>)>>>>)>>>>)),
                                    J("/ts2.json", O(<<<<"compilerOptions", O(<<<<"paths", O(<<<<"*", A(<<S("./m/a.js")>>)>>>>)>>>>)>>>>))>>,
    res |-> <<Bases[b], Add(Add(Bases[b], k1), k2)>>,
    ev |-> FlattenSeq([n \in 1..Len(AddCalls) |-> <<AddCalls[n], AsIn(On(AddCalls[n], 2), 2 * n - 1)>>])]
   : f \in {1, 3, 4, 7}, p \in {1, 2, 4}, q \in {1, 4}, b \in 1..Len(Bases), k1 \in Additions, k2 \in {3, 8}}
=============================================================================
