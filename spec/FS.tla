--------------------------------- MODULE FS ---------------------------------
(* A file tree with links as a table of nodes; node 1 is the root directory.                       *)
(*   [t |-> "d", up |-> parent, n |-> name, e |-> name -> node]  directory                         *)
(*   [t |-> "f", up, n]                                          ordinary file                     *)
(*   [t |-> "j", up, n, j |-> JSON value, m |-> mtime in ms]     file holding JSON                 *)
(*   [t |-> "l", up, n, to |-> text]                             symbolic link                     *)
(*   [t |-> "s", up, n]                                          a device: neither file nor folder *)
(* A path is the tuple of its segments between "/" (see Text!SplitOn), so nothing is normalised    *)
(* away: <<"", "R", ".", "x", "">> is "/R/./x/".  Paths are absolute: they start with "".          *)
EXTENDS Text

Root == 1
LinkFuel == 12

RECURSIVE WalkFrom(_, _, _, _)
WalkFrom(fs, start, segs, fuel) ==
  FoldLeft(
    LAMBDA cur, seg :
      IF cur = 0 THEN 0
      ELSE IF fs[cur].t # "d" THEN 0
      ELSE IF seg = "" \/ seg = "." THEN cur
      ELSE IF seg = ".." THEN fs[cur].up
      ELSE IF seg \notin DOMAIN fs[cur].e THEN 0
      ELSE LET nx == fs[cur].e[seg] IN
           IF fs[nx].t # "l" THEN nx
           ELSE IF fuel = 0 THEN 0
           ELSE LET to == SplitOn(fs[nx].to, "/") IN
                IF to[1] = "" THEN WalkFrom(fs, Root, Tail(to), fuel - 1)
                ELSE WalkFrom(fs, cur, to, fuel - 1),
    start, segs)

(* The node a path leads to, links followed, or 0.                                                 *)
Walk(fs, p) == WalkFrom(fs, Root, Tail(p), LinkFuel)

IsDirNode(fs, i) == i # 0 /\ fs[i].t = "d"
IsFileNode(fs, i) == i # 0 /\ fs[i].t \in {"f", "j"}
IsDir(fs, p) == IsDirNode(fs, Walk(fs, p))
IsFile(fs, p) == IsFileNode(fs, Walk(fs, p))
Exists(fs, p) == Walk(fs, p) # 0

(* The real path of a node.                                                                        *)
RECURSIVE NodePath(_, _)
NodePath(fs, i) ==
  IF i = Root THEN "/"
  ELSE IF fs[i].up = Root THEN "/" \o fs[i].n
  ELSE NodePath(fs, fs[i].up) \o "/" \o fs[i].n

(***************************************************************************************************)
(* Paths as text                                                                                    *)
(***************************************************************************************************)
PathText(p) == JoinWith(p, "/")
PathOf(s) == SplitOn(s, "/")

(* The indices of segments that name something ("." and "" do not).                                 *)
Real(p) == {i \in 1..Len(p) : p[i] # "" /\ p[i] # "."}

(* Two spellings of a path are the same if they agree up to "." and "".                             *)
Key(p) == LET ix == SetToSortSeq(Real(p), <) IN [k \in 1..Len(ix) |-> p[ix[k]]]
SamePath(p, q) == Key(p) = Key(q)
PathUnder(p, q) == IsPrefix(Key(q), Key(p))          \* p is q or below q, by spelling

(* p/t, where t may be absolute.                                                                    *)
Join(p, t) ==
  LET s == PathOf(t) IN
  IF t = "" THEN (IF p[Len(p)] = "" THEN p ELSE Append(p, ""))
  ELSE IF s[1] = "" THEN s
  ELSE (IF p[Len(p)] = "" THEN SubSeq(p, 1, Len(p) - 1) ELSE p) \o s

(* One text appended to a path, as in x + ".js".                                                    *)
AppendText(p, ext) == LET s == PathOf(p[Len(p)] \o ext) IN SubSeq(p, 1, Len(p) - 1) \o s

RootPath == <<"", "">>

(* The path and its ancestors by spelling, nearest first; the last one is the root.                 *)
Chain(p) ==
  LET ix == SetToSortSeq(Real(p), >)
      n == Len(ix)
  IN  [k \in 1..(IF n = 0 THEN 1 ELSE n + 1) |->
         IF k = 1 THEN p
         ELSE IF k = n + 1 THEN RootPath
         ELSE SubSeq(p, 1, ix[k])]

(* Lexical normalisation: "." and "" dropped, ".." cancels the segment before it, stops at the root. *)
Lexical(p) ==
  LET keep == FoldLeft(LAMBDA acc, s :
                IF s = "" \/ s = "." THEN acc
                ELSE IF s = ".." THEN (IF acc = <<>> THEN acc ELSE SubSeq(acc, 1, Len(acc) - 1))
                ELSE Append(acc, s), <<>>, p)
  IN  "/" \o JoinWith(keep, "/")
=============================================================================
