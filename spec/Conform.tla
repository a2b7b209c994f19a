------------------------------ MODULE Conform -------------------------------
(* Trace validation: every recorded run of the real resolver must be a behaviour of System.         *)
(* One initial state per recorded run; each step consumes one event, applies the edit to the tree    *)
(* or computes the specified answer, and judges the recorded one.                                    *)
(*   VP_MODE  how answers are judged                                                                 *)
(*     agree    the recorded answer is the specified one                                             *)
(*     exact    and so is the wording of an error                                                    *)
(*     message  errors have the specified wording, and those that name a problem are reported        *)
(*              exactly when specified                                                               *)
(*     total    the call returned                                                                    *)
(*     file     a result is an existing canonical file, and spelled as specified if it is the        *)
(*              specified file                                                                       *)
(*     same     the answer is that of the event at .same (C14: of .rel, if that succeeded)           *)
(*     helper   the accessors of a result, path normalisation and the built-in list                    *)
(*     copy     as same, between a tree with links and its link-free copy                            *)
(*   VP_PROP  the property whose statement (Props.tla) is evaluated on the specified answers         *)
EXTENDS Props, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.VP_RUNS)
Prop == IOEnv.VP_PROP
Mode == IOEnv.VP_MODE

VARIABLES run, pos, tree, good
vars == <<run, pos, tree, good>>

Ev == Runs[run].ev[pos]
Obs == Runs[run].out[pos]

Init ==
  /\ run \in 1..Len(Runs)
  /\ pos = 1
  /\ tree = Runs[run].fs
  /\ good = TRUE

Report(what, x) ==
  PrintT(what \o ToJson([run |-> run, pos |-> pos, want |-> x]))

Peer(ev) ==
  LET out == Runs[run].out IN
  IF "rel" \in DOMAIN ev /\ out[ev.rel].k \in {"ok", "ign"} THEN out[ev.rel] ELSE out[ev.same]

(* C01 on the recorded answer.                                                                       *)
CanonicalFile(c, o, x) ==
  o.k = "ok" =>
    LET w == Walk(c.fs, PathOf(o.p)) IN
    /\ o.t = "" /\ o.g = o.p
    /\ c.o.sym => o.file
    /\ \/ IsFileNode(c.fs, w)
       \/ ~c.o.sym /\ x.k = "ok" /\ o.p = x.p /\ LexicalDiffers(c, x)      \* known finding, see KNOWN_FINDINGS.md
    /\ IF c.o.sym THEN o.p = NodePath(c.fs, w) ELSE o.p = Lexical(PathOf(o.p))
    /\ (x.k = "ok" /\ w # 0 /\ w = Walk(c.fs, PathOf(x.p))) => o.p = x.p

(* C22: /R/x holds the tree with links, /R/y the copy; with symlinks off the answers are equal up to  *)
(* that name, with symlinks on the file in the copy is the copy of the real file.                    *)
CopyName(p) == IF StartsWith(p, "/R/y") THEN "/R/x" \o From(p, 5) ELSE p
CopyAgrees(c, o, peer) ==
  /\ o.k = peer.k
  /\ o.k = "ok" => LET there == PathOf(CopyName(o.p)) IN
                   IF c.o.sym THEN NodePath(c.fs, Walk(c.fs, there)) = peer.p ELSE PathText(there) = peer.p

Named(m) == m # AnyMsg /\ ~StartsWith(m, "Resolve '")
MessageAgrees(o, x) ==
  /\ (o.k = "err" /\ x.k = "err") => SameMessage(o, x)
  /\ (o.k = "err" /\ x.k # "err") => ~Named(o.m)
  /\ (o.k # "err" /\ x.k = "err") => ~(Named(x.m) \/ x.m = AnyMsg)

Judge(ev, o, x) ==
  LET c == [fs |-> tree, o |-> Runs[run].res[ev.r]] IN
  CASE Mode = "agree" -> Agrees(ev, o, x)
    [] Mode = "exact" -> Agrees(ev, o, x) /\ (o.k = "err" => SameMessage(o, x))
    [] Mode = "message" -> MessageAgrees(o, x)
    [] Mode = "total" -> o.k \notin {"panic", "crash", "hang"}
    [] Mode = "same" -> "same" \in DOMAIN ev => SameAnswer(o, Peer(ev))
    [] Mode = "file" -> IF ev.op = "resolve" THEN CanonicalFile(c, o, x) ELSE TRUE
    [] Mode = "helper" -> IF ev.op = "resolve" THEN (o.k = "ok" => o.g = o.p /\ o.j = o.p \o o.q \o o.f /\ o.t = "") ELSE Agrees(ev, o, x)
    [] Mode = "copy" -> "same" \in DOMAIN ev => CopyAgrees(c, o, Peer(ev))

(* C20: calls from several threads while another edits.  Each answer is that of a tree from during    *)
(* the call, or says that a file could not be read although an edit went on.                          *)
TreeAfter(ev, v) == FoldLeft(LAMBDA fs, e : Edited(fs, e), tree, SubSeq(ev.edits, 1, v))
\* A description that breaks between two looks at it may be named with the path of the later look.
Tidy(m) == IF StartsWith(m, "Parse /") /\ EndsWith(m, " failed") THEN "Parse " \o Lexical(PathOf(SubSeq(m, 7, Len(m) - 7))) \o " failed" ELSE m
ParallelAnswer(ev, c, o) ==
  \/ \E v \in o.v0..o.v1 :
        LET x == Answer(TreeAfter(ev, v), Runs[run].res, c) IN
        Agrees(c, o, x) /\ (o.k = "err" => SameMessage(o, x) \/ (o.v0 < o.v1 /\ Tidy(o.m) = Tidy(x.m)))
  \/ o.v0 < o.v1 /\ o.k = "err" /\ StartsWith(o.m, "Open ") /\ EndsWith(o.m, " failed")
Parallel(ev, o) ==
  o.k = "par" =>
    \A t \in 1..Len(ev.t) : \A n \in 1..Len(ev.t[t]) :
      ParallelAnswer(ev, ev.t[t][n], o.t[t][n])
        \/ (Report("THREAD ", [thread |-> t, call |-> n, from |-> Answer(TreeAfter(ev, o.t[t][n].v0), Runs[run].res, ev.t[t][n]),
                                                           upto |-> Answer(TreeAfter(ev, o.t[t][n].v1), Runs[run].res, ev.t[t][n])]) /\ FALSE)

IsCall(ev) == ev.op \in {"resolve", "side", "normalize", "builtin"}

(* The relational judgements need no specified answer.                                                *)
NeedsAnswer(ev) == ev.op \in {"normalize", "builtin"} \/ Mode \notin {"same", "total", "copy"} \/ Prop \in {"C14", "C25"}

Step ==
  /\ pos <= Len(Runs[run].ev)
  /\ tree' = Edited(tree, Ev)
  /\ pos' = pos + 1
  /\ run' = run
  /\ IF Ev.op = "par" THEN good' = (good /\ ((Obs.k = "par" /\ Parallel(Ev, Obs)) \/ (Report("MISMATCH ", [k |-> "see THREAD"]) /\ FALSE)))
     ELSE IF ~IsCall(Ev) THEN good' = good
     ELSE LET x == IF NeedsAnswer(Ev) THEN Answer(tree, Runs[run].res, Ev) ELSE [k |-> "any"]
              ok == Judge(Ev, Obs, x) \/ (Report("MISMATCH ", x) /\ FALSE)
              sp == ~NeedsAnswer(Ev) \/ Ev.op \notin {"resolve", "side", "normalize"}
                    \/ Holds(Prop, [fs |-> tree, o |-> IF "r" \in DOMAIN Ev THEN Runs[run].res[Ev.r] ELSE Runs[run].res[1]], Ev, x) \/ (Report("SPECFAIL ", x) /\ FALSE)
          IN  good' = (good /\ ok /\ sp)

Spec == Init /\ [][Step]_vars
=============================================================================
