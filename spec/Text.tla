-------------------------------- MODULE Text --------------------------------
(* Strings (TLC evaluates Len, SubSeq and \o on them) and the few operations the resolver needs.   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Ch(s, i) == SubSeq(s, i, i)
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
From(s, i) == SubSeq(s, i, Len(s))
UpTo(s, i) == SubSeq(s, 1, i)
At(s, c) == {i \in 1..Len(s) : Ch(s, i) = c}
Has(s, c) == \E i \in 1..Len(s) : Ch(s, i) = c

FirstSlash(s) == LET S == At(s, "/") IN IF S = {} THEN 0 ELSE Min(S)
Min0(S) == IF S = {} THEN 0 ELSE Min(S)

(* "a/b//c" -> <<"a", "b", "", "c">>; lossless: JoinWith(SplitOn(s, c), c) = s.                     *)
SplitOn(s, c) ==
  LET ix == SetToSortSeq(At(s, c), <)
      n == Len(ix)
  IN  [k \in 1..(n + 1) |->
         SubSeq(s, IF k = 1 THEN 1 ELSE ix[k - 1] + 1, IF k = n + 1 THEN Len(s) ELSE ix[k] - 1)]

JoinWith(segs, c) ==
  IF segs = <<>> THEN ""
  ELSE FoldLeft(LAMBDA a, b : a \o c \o b, segs[1], Tail(segs))

Subst(s, c, by) == IF Has(s, c) THEN JoinWith(SplitOn(s, c), by) ELSE s
=============================================================================
