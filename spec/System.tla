------------------------------- MODULE System -------------------------------
(* The resolver as its users see it: a file tree that others edit, and calls whose answers are a    *)
(* function of the tree at the time of the call.  No cache is visible at this level: what the       *)
(* implementation remembers between calls may not show (Cache.tla is the design that achieves it).  *)
EXTENDS Resolver

Builtins == {"_http_agent","_http_client","_http_common","_http_incoming","_http_outgoing","_http_server",
  "_stream_duplex","_stream_passthrough","_stream_readable","_stream_transform","_stream_wrap","_stream_writable",
  "_tls_common","_tls_wrap","assert","assert/strict","async_hooks","buffer","child_process","cluster","console",
  "constants","crypto","dgram","diagnostics_channel","dns","dns/promises","domain","events","fs","fs/promises",
  "http","http2","https","inspector","module","net","os","path","path/posix","path/win32","perf_hooks","process",
  "punycode","querystring","readline","repl","stream","stream/consumers","stream/promises",
  "stream/web","string_decoder","sys","timers","timers/promises","tls","trace_events","tty","url","util",
  "util/types","v8","vm","wasi","worker_threads","zlib"}

(***************************************************************************************************)
(* Edits of the tree.  The parent directory exists and is reached without links.                     *)
(***************************************************************************************************)
ParentOf(p) == SubSeq(p, 1, Len(p) - 1)

Put(fs, p, node) ==
  LET d == Walk(fs, ParentOf(p))
      n == p[Len(p)]
      rec == node @@ [up |-> d, n |-> n]
  IN  IF n \in DOMAIN fs[d].e /\ fs[fs[d].e[n]].t # "l"
      THEN [fs EXCEPT ![fs[d].e[n]] = rec]
      ELSE Append([fs EXCEPT ![d].e = (n :> (Len(fs) + 1)) @@ @], rec)

Drop(fs, p) ==
  LET d == Walk(fs, ParentOf(p)) IN
  [fs EXCEPT ![d].e = [x \in DOMAIN @ \ {p[Len(p)]} |-> @[x]]]

Move(fs, p, q) ==                           \* a file, directory or link takes another place, which is free
  LET i == fs[Walk(fs, ParentOf(p))].e[p[Len(p)]]
      d == Walk(fs, ParentOf(q))
      n == q[Len(q)]
      out == Drop(fs, p)
  IN  [out EXCEPT ![i].up = d, ![i].n = n, ![d].e = (n :> i) @@ @]

Put1(fs, e) ==                              \* an edit that replaces or removes a description
  IF e.op = "rm" THEN Drop(fs, PathOf(e.p)) ELSE Put(fs, PathOf(e.p), [t |-> "j", j |-> e.j, m |-> e.m])

Edited(fs, ev) ==
  LET p == IF "p" \in DOMAIN ev THEN PathOf(ev.p) ELSE <<>> IN
  CASE ev.op = "par" -> FoldLeft(LAMBDA t, e : Put1(t, e), fs, ev.edits)
    [] ev.op = "rm" -> Drop(fs, p)
    [] ev.op = "mv" -> Move(fs, p, PathOf(ev.to))
    [] ev.op = "touch" -> [fs EXCEPT ![Walk(fs, p)].m = ev.m]
    [] ev.op = "write" /\ ev.t = "f" -> Put(fs, p, [t |-> "f"])
    [] ev.op = "write" /\ ev.t = "d" -> Put(fs, p, [t |-> "d", e |-> <<>>])
    [] ev.op = "write" /\ ev.t = "j" -> Put(fs, p, [t |-> "j", j |-> ev.j, m |-> ev.m])
    [] ev.op = "write" /\ ev.t = "l" -> Put(fs, p, [t |-> "l", to |-> ev.to])
    [] OTHER -> fs

(***************************************************************************************************)
(* Calls                                                                                            *)
(***************************************************************************************************)
Answer(fs, res, ev) ==
  CASE ev.op = "resolve" -> Resolve([fs |-> fs, o |-> res[ev.r]], ev.d, ev.q)
    [] ev.op = "side" -> SideEffects([fs |-> fs, o |-> res[ev.r]], PathOf(ev.d))
    [] ev.op = "builtin" -> [k |-> IF ev.q \in Builtins THEN "yes" ELSE "no"]
    [] ev.op = "normalize" -> [k |-> "ok", p |-> Lexical(PathOf(ev.d))]
    [] OTHER -> [k |-> "done"]

(* An observed answer o agrees with the specified answer x.                                         *)
SameMessage(o, x) == x.m = AnyMsg \/ o.m = x.m

Agrees(ev, o, x) ==
  /\ o.k = x.k
  /\ o.k = "ok" /\ ev.op = "resolve" =>
       o.p = x.p /\ o.q = x.q /\ o.f = x.f /\ o.t = "" /\ o.g = x.p /\ o.j = x.p \o x.q \o x.f
  /\ o.k = "ok" /\ ev.op = "normalize" => o.p = x.p
  /\ o.k = "some" => SamePath(PathOf(o.p), PathOf(x.p)) /\ o.se = x.se

(* Two observed answers are the same answer.                                                          *)
SameAnswer(a, b) ==
  /\ a.k = b.k
  /\ a.k = "ok" => a.p = b.p /\ a.q = b.q /\ a.f = b.f /\ a.t = b.t
  /\ a.k = "err" => a.m = b.m
  /\ a.k = "some" => SamePath(PathOf(a.p), PathOf(b.p)) /\ a.se = b.se
=============================================================================
