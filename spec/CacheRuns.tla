----------------------------- MODULE CacheRuns ------------------------------
(* Every schedule of Cache.tla at the coarse grain, as a world for the real resolver: the tree, the   *)
(* threads, the edits and the order in which the threads are let through their file-system accesses.  *)
EXTENDS Cache, Json

O(kvs) == <<"o", kvs>>
Desc(c) == O(<<<<"sideEffects", <<"a", <<<<"s", "v" \o ToString(c)>>>>>>>>>>)
D(p) == [p |-> p, t |-> "d"]
DirText(d) == IF d = 1 THEN "/R/m/d" ELSE "/R/m"
NameText(n) == IF n = 1 THEN "package.json" ELSE "other.json"
FileText(d, n) == DirText(d) \o "/" \o NameText(n)
J(d, n, f) == [p |-> FileText(d, n), t |-> "j", j |-> Desc(f.c), m |-> 500 * f.m]
Tree ==
  <<D("/R"), D("/R/m"), D("/R/m/d")>> \o
  (IF File(0, 1, 1) = Absent THEN <<>> ELSE <<J(1, 1, File(0, 1, 1))>>) \o
  (IF File(0, 1, 2) = Absent THEN <<>> ELSE <<J(1, 2, File(0, 1, 2))>>) \o
  (IF File(0, 2, 1) = Absent THEN <<>> ELSE <<J(2, 1, File(0, 2, 1))>>) \o
  (IF File(0, 2, 2) = Absent THEN <<>> ELSE <<J(2, 2, File(0, 2, 2))>>)
Opts(df) == [ext |-> <<".js">>, enf |-> "none", alias |-> <<>>, pr |-> FALSE, sym |-> TRUE, df |-> df, mfiles |-> <<"index">>, mfields |-> <<"main">>,
             bf |-> FALSE, cond |-> <<"node">>, ts |-> "", cache |-> 1]
Side(n) == [op |-> "side", r |-> n, d |-> "/R/m/d"]
SideUp(n) == [op |-> "side", r |-> n, d |-> "/R/m"]
EditEv(v) == IF su.edits[v] = -1 THEN [op |-> "rm", p |-> FileText(su.dir, su.name)]
             ELSE [op |-> "write", t |-> "j", p |-> FileText(su.dir, su.name), j |-> Desc(v), m |-> 500 * su.edits[v]]
Par == [op |-> "par", t |-> [r \in Readers |-> [i \in 1..Len(su.calls[r]) |-> Side(su.calls[r][i])]], edits |-> [v \in 1..Len(su.edits) |-> EditEv(v)],
        sched |-> <<>>, rng |-> 0, gap |-> 0]
World == [fs |-> Tree, res |-> <<Opts("package.json"), Opts("other.json")>>,
          ev |-> [i \in 1..Len(su.warm) |-> Side(su.warm[i])] \o <<Par, Side(1), Side(2), SideUp(1)>>]
\* The writer's first segment only brings it to its first edit.
Schedule == <<Len(su.calls)>> \o [i \in 1..Len(hist) |-> hist[i] - 1]
Written ==
  /\ hist = <<>> => PrintT("SETUP " \o ToJson([su |-> su, world |-> World]))
  /\ Ended => PrintT("RUN " \o ToJson([su |-> su, s |-> Schedule]))
=============================================================================
