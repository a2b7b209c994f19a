------------------------------ MODULE KeySearch ------------------------------
(* How the key of an exports or imports map is searched: a tree with one level per folder, walked      *)
(* down along the subpath, remembering the best folder or pattern key met on the way (src/map.rs).     *)
(* Fields!FindKey says what must come out: TLC checks that both agree for every small map, in every    *)
(* order, and every subpath, and that every walk ends.                                                 *)
EXTENDS Fields

CONSTANTS MaxKeys

Pool == <<"a", "a/b", "ab", "a/b/c", "", "a/", "a/b/", "ab/", "*", "a*", "a/*", "a/b*", "ab*", "a/b/*", "b/*", "a/*/", "a//", "/">>
Subs == {"a", "b", "ab", "abc", "a/b", "a/bb", "a/b/c", "a/b/c/d", "a/c", "ab/c", "ab/c/d", "b/c", "b/", "a//", "a//b", "/a", "a/*", "*", "a/b/*", "c"}

VARIABLES keys, sub, node, at, best, pc
vars == <<keys, sub, node, at, best, pc>>

(***************************************************************************************************)
(* The tree of a map.  A node is named by the folders that lead to it: "", "a/", "a/b/".              *)
(***************************************************************************************************)
LastSlash(key) == LET s == At(key, "/") IN IF s = {} THEN 0 ELSE Max(s)
NodeOf(key) == UpTo(key, LastSlash(key))
Leaf(key) == From(key, LastSlash(key) + 1)
KeysAt(n) == {k \in 1..Len(keys) : NodeOf(keys[k]) = n}
FolderAt(n) == {k \in KeysAt(n) : Leaf(keys[k]) = ""}
PatternsAt(n) == {k \in KeysAt(n) : EndsWith(keys[k], "*")}
FilesAt(n) == {k \in KeysAt(n) : Leaf(keys[k]) # "" /\ ~EndsWith(keys[k], "*")}
HasChildren(n) == \E k \in 1..Len(keys) : NodeOf(keys[k]) # n /\ StartsWith(NodeOf(keys[k]), n)
HasChild(n, folder) == \E k \in 1..Len(keys) : StartsWith(NodeOf(keys[k]), n \o folder \o "/")

(***************************************************************************************************)
(* The walk.  best = [at, idx, folder]: idx counts the characters before the rest of the subpath;      *)
(* any pattern beats a remembered folder, and a folder met later replaces what is remembered.           *)
(***************************************************************************************************)
None == [at |-> 0, idx |-> -1, folder |-> FALSE]
OfFolder(b, n) == IF FolderAt(n) = {} THEN b ELSE [at |-> CHOOSE k \in FolderAt(n) : TRUE, idx |-> Len(n), folder |-> TRUE]

RECURSIVE OfPatterns(_, _, _)                 \* in the order of the map
OfPatterns(b, ks, text) ==
  IF ks = <<>> THEN b
  ELSE LET key == keys[Head(ks)]
           head == UpTo(Leaf(key), Len(Leaf(key)) - 1)
           idx == Len(NodeOf(key)) + Len(head)
           better == StartsWith(text, head) /\ (b.at = 0 \/ b.folder \/ b.idx < idx)
       IN  OfPatterns(IF better THEN [at |-> Head(ks), idx |-> idx, folder |-> FALSE] ELSE b, Tail(ks), text)
InOrder(ks) == SetToSortSeq(ks, <)

Slash == LET s == {k \in At(sub, "/") : k > at} IN IF s = {} THEN 0 ELSE Min(s)
Segment == SubSeq(sub, at + 1, Slash - 1)
Tail1 == From(sub, at + 1)

Init ==
  /\ keys \in UNION {{s \in [1..n -> {Pool[k] : k \in 1..Len(Pool)}] : \A i, j \in 1..n : i # j => s[i] # s[j]} : n \in 1..MaxKeys}
  /\ sub \in Subs
  /\ node = "" /\ at = 0 /\ best = None /\ pc = "walk"

Done(b) == /\ best' = b /\ pc' = "done" /\ UNCHANGED <<keys, sub, node, at>>

Descend ==
  /\ pc = "walk" /\ Slash # 0
  /\ LET b1 == OfFolder(best, node)
         b2 == OfPatterns(b1, InOrder(PatternsAt(node)), Segment)
     IN  IF PatternsAt(node) = {} /\ ~HasChildren(node) THEN Done(b1)
         ELSE IF ~HasChild(node, Segment) THEN Done(b2)
         ELSE /\ best' = b2 /\ node' = node \o Segment \o "/" /\ at' = Slash
              /\ UNCHANGED <<keys, sub, pc>>

Exact == {k \in FilesAt(node) : Leaf(keys[k]) = Tail1}
Finish ==
  /\ pc = "walk" /\ Slash = 0
  /\ IF Exact # {} THEN Done([at |-> CHOOSE k \in Exact : TRUE, idx |-> Len(sub), folder |-> FALSE])
     ELSE Done(OfPatterns(OfFolder(best, node), InOrder(PatternsAt(node)), Tail1))

Next == Descend \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(***************************************************************************************************)
Agree ==
  pc = "done" =>
    LET m == FindKey(keys, sub) IN
    IF m.at = 0 THEN best.at = 0
    ELSE /\ best.at = m.at
         /\ m.exact \/ (best.folder = m.folder /\ From(sub, best.idx + 1) = m.rest)
(* What is remembered is a key that matches; it is never forgotten for a shorter one.                   *)
Matching ==
  best.at # 0 /\ pc = "walk" => KeyForm(keys[best.at]) # "exact" /\ StartsWith(sub, KeyPrefix(keys[best.at]))
Ends == <>(pc = "done")
Progress == [][best.at # 0 => best'.idx >= best.idx]_vars
=============================================================================
