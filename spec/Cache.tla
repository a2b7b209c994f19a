------------------------------- MODULE Cache --------------------------------
(* The description cache: how calls on several threads look up, check, read and remember descriptions *)
(* while a writer replaces, creates and removes one of them.  System.tla has no cache; this module     *)
(* is the design that makes the cache invisible, at the grain of single file-system and map accesses.  *)
(*   directories   1 = where a call asks, 2 = the one above it                                          *)
(*   names         a resolver may use another description name than the one it shares the cache with   *)
(*   times         counted in half seconds: a time is taken for unchanged within one second            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils

Variant == IF "VP_VARIANT" \in DOMAIN IOEnv THEN IOEnv.VP_VARIANT ELSE "code"
Grain == IF "VP_GRAIN" \in DOMAIN IOEnv THEN IOEnv.VP_GRAIN ELSE "fine"
SetupName == IF "VP_SETUP" \in DOMAIN IOEnv THEN IOEnv.VP_SETUP ELSE "small"

Dirs == 1..2
Absent == [c |-> -1, m |-> -1]
Empty == [n |-> 0, c |-> -1, m |-> -1]

(***************************************************************************************************)
(* Setups: who calls what, what is there, what is edited.                                            *)
(***************************************************************************************************)
\* edits of one file: the time of the new content, or -1 where it is removed; the first content has time 2
Settled(ms, m) == \A i \in 1..Len(ms) : ms[i] = -1 \/ m >= ms[i] + 2 \/ m < ms[i]
RECURSIVE Edits(_, _, _)
Edits(n, there, before) ==
  IF n = 0 THEN {<<>>}
  ELSE UNION {{<<m>> \o rest : rest \in Edits(n - 1, m # -1, Append(before, m))} :
              m \in {t \in {0, 2, 4, 6} : Settled(before, t)} \cup (IF there THEN {-1} ELSE {})}
EditPlans(n, there) == Edits(n, there, IF there THEN <<2>> ELSE <<>>)

Setup(calls, there, name, dir, warm, edits) ==
  [calls |-> calls,            \* per reader the names it looks for, in turn
   there |-> there,            \* whether the edited file is there at first
   name |-> name, dir |-> dir, \* the edited file
   warm |-> warm,              \* the names looked for before anything else, in turn
   edits |-> edits]

Setups ==
  CASE SetupName = "small" ->
         {Setup(cs, th, 1, 1, w, es) : cs \in {<<<<1>>>>, <<<<1, 1>>>>, <<<<1>>, <<1>>>>}, th \in BOOLEAN, w \in {<<>>, <<1>>}, es \in EditPlans(2, TRUE) \cup EditPlans(2, FALSE)}
    [] SetupName = "names" ->
         {Setup(cs, th, 1, d, w, es) : cs \in {<<<<1>>, <<2>>>>, <<<<1, 1>>, <<2>>>>, <<<<2, 1>>, <<1, 2>>>>}, th \in BOOLEAN, d \in Dirs, w \in {<<>>, <<1>>, <<2>>}, es \in EditPlans(1, TRUE) \cup EditPlans(2, FALSE)}
    [] SetupName = "deep" ->
         {Setup(cs, th, 1, 1, w, es) : cs \in {<<<<1, 1>>, <<1, 1>>>>, <<<<1>>, <<1>>, <<1>>>>}, th \in BOOLEAN, w \in {<<>>, <<1>>}, es \in {<<0, 4>>, <<4, 0>>, <<-1, 4>>, <<4, -1>>}}
    [] SetupName = "mixed" ->
         {Setup(<<<<1>>, <<2>>>>, th, 1, d, w, es) : th \in BOOLEAN, d \in Dirs, w \in {<<>>, <<1>>, <<2>>}, es \in EditPlans(1, TRUE) \cup EditPlans(2, FALSE)}
    [] SetupName = "two" ->     \* schedules of one and two readers
         {Setup(cs, th, 1, 1, w, es) : cs \in {<<<<1>>>>, <<<<1>>, <<1>>>>}, th \in BOOLEAN, w \in {<<>>, <<1>>}, es \in {<<0>>, <<4>>, <<-1>>, <<-1, 4>>, <<4, -1>>, <<0, 4>>, <<4, 0>>}}
    [] SetupName = "turns" ->   \* one reader calls again; another shares its cache under another name
         {Setup(cs, th, 1, 1, w, es) : cs \in {<<<<1, 1>>>>, <<<<1>>, <<2>>>>, <<<<2>>, <<1>>>>}, th \in BOOLEAN, w \in {<<>>, <<1>>, <<2>>}, es \in {<<0>>, <<4>>, <<-1>>, <<-1, 4>>, <<4, 0>>}}
    [] SetupName = "third" ->   \* three readers and one edit
         {Setup(<<<<1>>, <<1>>, <<1>>>>, TRUE, 1, 1, w, <<m>>) : w \in {<<>>, <<1>>}, m \in {4, -1}}

Sensible(s) ==                   \* removals remove something, times settle
  /\ \A i \in 1..Len(s.edits) : s.edits[i] = -1 => (IF i = 1 THEN s.there ELSE s.edits[i - 1] # -1)
  /\ \A i \in 1..Len(s.edits) : s.edits[i] # -1 => Settled((IF s.there THEN <<2>> ELSE <<>>) \o SubSeq(s.edits, 1, i - 1), s.edits[i])

VARIABLES su, done, cache, rd, hist
vars == <<su, done, cache, rd, hist>>

(***************************************************************************************************)
(* The file tree as a function of the number of edits made.                                          *)
(***************************************************************************************************)
File(v, d, n) ==
  IF d = su.dir /\ n = su.name
  THEN IF v = 0 THEN (IF su.there THEN [c |-> 0, m |-> 2] ELSE Absent)
       ELSE IF su.edits[v] = -1 THEN Absent ELSE [c |-> v, m |-> su.edits[v]]
  ELSE IF d = 1 /\ n = 1 THEN Absent                                           \* only the upper one is there
  ELSE [c |-> 100 * d + 10 * n, m |-> 2]
Disk(d, n) == File(done, d, n)

Lookup(v, n) ==                     \* what a call returns on the tree after v edits
  IF File(v, 1, n) # Absent THEN File(v, 1, n).c ELSE IF File(v, 2, n) # Absent THEN File(v, 2, n).c ELSE -1

Failed == -2                        \* "a file could not be read"

(***************************************************************************************************)
(* Steps                                                                                            *)
(***************************************************************************************************)
Readers == DOMAIN su.calls
Idle == [pc |-> "start", i |-> 1, at |-> 1, up |-> 1, v0 |-> 0, c |-> -1, m |-> -1, last |-> <<>>]

Init ==
  /\ su \in {s \in Setups : Sensible(s)}
  /\ done = 0
  /\ cache = [d \in Dirs |-> LET ns == {i \in 1..Len(su.warm) : File(0, d, su.warm[i]) # Absent /\ (d = 2 => File(0, 1, su.warm[i]) = Absent)} IN
                             IF ns = {} THEN Empty ELSE LET n == su.warm[CHOOSE i \in ns : \A j \in ns : j <= i] IN [n |-> n] @@ File(0, d, n)]
  /\ rd = [r \in Readers |-> Idle]
  /\ hist = <<>>

Name(r) == su.calls[r][rd[r].i]
Go(r, pc) == rd' = [rd EXCEPT ![r].pc = pc]
Return(r, c) ==
  rd' = [rd EXCEPT ![r] = [Idle EXCEPT !.i = @ + rd[r].i, !.last = <<rd[r].v0, done, c, Name(r)>>,
                                       !.pc = IF rd[r].i = Len(su.calls[r]) THEN "end" ELSE "start"]]
Same == UNCHANGED <<su, done, cache>>

\* The next call of a thread begins within the segment that ends the one before, as in the harness.
Start(r) == rd[r].pc = "start" /\ rd' = [rd EXCEPT ![r].pc = "dir", ![r].v0 = done] /\ Same
LookDir(r) == rd[r].pc = "dir" /\ Go(r, "file") /\ Same
LookFile(r) == rd[r].pc = "file" /\ Go(r, IF Disk(rd[r].at, Name(r)) = Absent THEN "drop" ELSE "get") /\ Same
Forget(r) ==
  /\ rd[r].pc = "drop"
  /\ cache' = IF Variant = "keep" THEN cache ELSE [cache EXCEPT ![rd[r].at] = Empty]
  /\ rd' = [rd EXCEPT ![r].pc = "up", ![r].up = rd[r].at]
  /\ UNCHANGED <<su, done>>
Ascend(r) ==
  /\ rd[r].pc = "up"
  /\ IF Disk(rd[r].up, Name(r)) # Absent THEN rd' = [rd EXCEPT ![r].pc = "dir", ![r].at = rd[r].up]
     ELSE IF rd[r].up = 2 THEN Return(r, -1)
     ELSE rd' = [rd EXCEPT ![r].up = @ + 1]
  /\ Same
Get(r) ==
  /\ rd[r].pc = "get"
  /\ LET e == cache[rd[r].at]
         hit == e # Empty /\ (Variant = "anyname" \/ e.n = Name(r)) IN
     IF hit THEN rd' = [rd EXCEPT ![r].pc = "check", ![r].c = e.c, ![r].m = e.m] ELSE Go(r, IF Variant = "readfirst" THEN "read" ELSE "stat")
  /\ Same
Unchanged(m, now) == IF Variant = "older" THEN now - m < 2 ELSE now - m \in {0, 1}
Check(r) ==
  /\ rd[r].pc = "check"
  /\ LET f == Disk(rd[r].at, Name(r)) IN
     IF f = Absent THEN Return(r, Failed)
     ELSE IF Unchanged(rd[r].m, f.m) THEN Return(r, rd[r].c)
     ELSE Go(r, IF Variant = "readfirst" THEN "read" ELSE "stat")
  /\ Same
Stat(r) ==
  /\ rd[r].pc = "stat"
  /\ LET f == Disk(rd[r].at, Name(r)) IN
     IF f = Absent THEN Return(r, Failed)
     ELSE rd' = [rd EXCEPT ![r].pc = IF Variant = "readfirst" THEN "insert" ELSE "read", ![r].m = f.m]
  /\ Same
Read(r) ==
  /\ rd[r].pc = "read"
  /\ LET f == Disk(rd[r].at, Name(r)) IN
     IF f = Absent THEN Return(r, Failed)
     ELSE rd' = [rd EXCEPT ![r].pc = IF Variant = "readfirst" THEN "stat" ELSE "insert", ![r].c = f.c]
  /\ Same
Insert(r) ==
  /\ rd[r].pc = "insert"
  /\ cache' = [cache EXCEPT ![rd[r].at] = [n |-> Name(r), c |-> rd[r].c, m |-> rd[r].m]]
  /\ Return(r, rd[r].c)
  /\ UNCHANGED <<su, done>>

Step(r) == Start(r) \/ LookDir(r) \/ LookFile(r) \/ Forget(r) \/ Ascend(r) \/ Get(r) \/ Check(r) \/ Stat(r) \/ Read(r) \/ Insert(r)
Edit == done < Len(su.edits) /\ done' = done + 1 /\ UNCHANGED <<su, cache, rd>>

(***************************************************************************************************)
(* Grains: in "fine" every access interleaves with every other; in "coarse" a thread is interrupted   *)
(* only before an access of the edited file, and `hist` records the schedule for the harness.         *)
(***************************************************************************************************)
Between(r) ==
  \/ rd[r].pc \in {"drop", "get", "insert", "dir"}
  \/ rd[r].at # su.dir /\ rd[r].pc \in {"file", "check", "stat", "read"}
  \/ rd[r].pc = "up" /\ rd[r].up # su.dir
  \/ rd[r].pc = "start" /\ rd[r].i > 1
Accesses(pc) == pc \in {"start", "dir", "file", "up", "check", "stat", "read"}
Moved(r) == IF Grain = "fine" \/ ~Accesses(rd[r].pc) \/ (rd[r].pc = "start" /\ rd[r].i > 1) THEN hist' = hist ELSE hist' = Append(hist, r)

\* Readers that do the same are alike: they start in order.
InTurn(r) == (r > 1 /\ su.calls[r - 1] = su.calls[r] /\ rd[r].pc = "start" /\ rd[r].i = 1) => ~(rd[r - 1].pc = "start" /\ rd[r - 1].i = 1)

Next ==
  \/ \E r \in Readers :
       /\ Grain = "coarse" => (\A q \in Readers : Between(q) => q = r) /\ InTurn(r)
       /\ Step(r)
       /\ Moved(r)
  \/ /\ Grain = "coarse" => \A q \in Readers : ~Between(q)
     /\ Edit
     /\ hist' = IF Grain = "fine" THEN hist ELSE Append(hist, Len(su.calls) + 1)

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(***************************************************************************************************)
(* What the cache must not show                                                                       *)
(***************************************************************************************************)
Linear ==                           \* a call answers from a tree during it, or says that a file went away meanwhile
  \A r \in Readers : rd[r].last # <<>> =>
    LET v0 == rd[r].last[1] v1 == rd[r].last[2] IN
    \/ \E v \in v0..v1 : rd[r].last[3] = Lookup(v, rd[r].last[4])
    \/ v0 < v1 /\ rd[r].last[3] = Failed

Remembered ==                       \* the time that is remembered never belongs to a later version than the content
  \A d \in Dirs : cache[d] # Empty =>
    \E v1, v2 \in 0..done : v1 <= v2 /\ File(v1, d, cache[d].n) # Absent /\ File(v1, d, cache[d].n).m = cache[d].m /\ File(v2, d, cache[d].n).c = cache[d].c

Ended == done = Len(su.edits) /\ \A r \in Readers : rd[r].pc = "end"
NoStop == Ended \/ ENABLED Next
Returns == <>Ended
=============================================================================
