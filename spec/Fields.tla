------------------------------- MODULE Fields -------------------------------
(* The exports and imports fields of a description file: which targets a subpath is mapped to.      *)
(* JSON values are tuples <<"s", text>>, <<"b", bool>>, <<"n", int>>, <<"z">> (null),               *)
(* <<"a", items>>, <<"o", <<<<key, value>>, ..>>>> with keys in written order, <<"bad">> (no JSON).  *)
EXTENDS FS

Tag(j) == j[1]
IsObj(j) == Tag(j) = "o"
IsStr(j) == Tag(j) = "s"
HasKey(j, key) == IsObj(j) /\ \E i \in 1..Len(j[2]) : j[2][i][1] = key
Val(j, key) == j[2][CHOOSE i \in 1..Len(j[2]) : j[2][i][1] = key][2]
HasStr(j, key) == HasKey(j, key) /\ IsStr(Val(j, key))

AnyMsg == "*"                                  \* an error whose wording is not specified
Ok(v) == [k |-> "ok", v |-> v]
Err(m) == [k |-> "err", m |-> m]

(***************************************************************************************************)
(* Well-formedness                                                                                  *)
(***************************************************************************************************)
RECURSIVE GoodMapping(_)
GoodMapping(j) ==
  CASE Tag(j) \in {"s", "z"} -> TRUE
    [] Tag(j) = "a" -> \A i \in 1..Len(j[2]) : Tag(j[2][i]) # "a" /\ GoodMapping(j[2][i])
    [] Tag(j) = "o" -> \A i \in 1..Len(j[2]) : GoodMapping(j[2][i][2])
    [] OTHER -> FALSE

Direct(key) == StartsWith(key, ".") \/ StartsWith(key, "/")

ExportsError(j) ==                          \* "" if the value is a usable exports field
  IF ~GoodMapping(j) THEN AnyMsg
  ELSE IF ~IsObj(j) THEN ""
  ELSE LET ks == [i \in 1..Len(j[2]) |-> j[2][i][1]]
           allCond == \A i \in 1..Len(ks) : ~Direct(ks[i])
           allDirect == \A i \in 1..Len(ks) : Direct(ks[i])
           wrong == {i \in 1..Len(ks) : Len(ks[i]) # 1 /\ ~StartsWith(ks[i], "./")}
       IN  IF ~allCond /\ ~allDirect
             THEN "Export field key can't mixed relative path and conditional object"
           ELSE IF allCond \/ wrong = {} THEN ""
           ELSE "Export field key should be relative path and start with \"./\", but got " \o ks[Min(wrong)]

ImportsError(j) ==
  IF ~GoodMapping(j) \/ ~IsObj(j) THEN AnyMsg
  ELSE LET ks == [i \in 1..Len(j[2]) |-> j[2][i][1]]
           bad == {i \in 1..Len(ks) : ~StartsWith(ks[i], "#") \/ Len(ks[i]) = 1 \/ StartsWith(ks[i], "#/")}
       IN  IF bad = {} THEN ""
           ELSE LET key == ks[Min(bad)] IN
                IF ~StartsWith(key, "#") THEN "Imports field key should start with #, but got " \o key
                ELSE IF Len(key) = 1 THEN "Imports field key should have at least 2 characters, but got " \o key
                ELSE "Import field key should not start with #/, but got " \o key

(***************************************************************************************************)
(* Which key decides.  Keys and subpaths come without their "./" or "#".                            *)
(* A key is a folder key (ends in "/", or is empty: the key "./"), a pattern key (ends in "*") or   *)
(* an exact key.                                                                                    *)
(***************************************************************************************************)
KeyForm(key) == IF key = "" \/ EndsWith(key, "/") THEN "folder"
                ELSE IF EndsWith(key, "*") THEN "pattern" ELSE "exact"
KeyPrefix(key) == IF KeyForm(key) = "pattern" THEN UpTo(key, Len(key) - 1) ELSE key

Rank(key) == 2 * Len(KeyPrefix(key)) + (IF KeyForm(key) = "pattern" THEN 1 ELSE 0)

NoMatch == [at |-> 0, folder |-> FALSE, exact |-> FALSE, rest |-> ""]

(* keys: sequence of distinct keys.  at = index of the deciding key or 0.                           *)
FindKey(keys, sub) ==
  LET exact == {i \in 1..Len(keys) : KeyForm(keys[i]) = "exact" /\ keys[i] = sub}
      prefix == {i \in 1..Len(keys) : KeyForm(keys[i]) # "exact" /\ StartsWith(sub, KeyPrefix(keys[i]))}
  IN  IF exact # {} THEN [at |-> Min(exact), folder |-> FALSE, exact |-> TRUE, rest |-> ""]
      ELSE IF prefix = {} THEN NoMatch
      ELSE LET i == CHOOSE i \in prefix : \A k \in prefix : Rank(keys[k]) <= Rank(keys[i])
           IN  [at |-> i, folder |-> KeyForm(keys[i]) = "folder", exact |-> FALSE,
                rest |-> From(sub, Len(KeyPrefix(keys[i])) + 1)]

(***************************************************************************************************)
(* Conditions                                                                                       *)
(***************************************************************************************************)
(* Ok(<<value>>) with a value that is not an object, Ok(<<>>) if nothing applies, or an error.      *)
RECURSIVE PickFrom(_, _, _)
PickFrom(entries, i, cond) ==
  IF i > Len(entries) THEN Ok(<<>>)
  ELSE LET key == entries[i][1]
           v == entries[i][2] IN
       IF key = "default" /\ i # Len(entries) THEN Err("Default condition should be last one")
       ELSE IF key = "default" \/ key \in cond
       THEN IF IsObj(v)
            THEN LET inner == PickFrom(v[2], 1, cond) IN
                 IF inner.k = "err" \/ inner.v # <<>> THEN inner ELSE PickFrom(entries, i + 1, cond)
            ELSE Ok(<<v>>)
       ELSE PickFrom(entries, i + 1, cond)
Pick(j, cond) == PickFrom(j[2], 1, cond)

(***************************************************************************************************)
(* Targets                                                                                          *)
(***************************************************************************************************)
(* kind: "exports" targets must be relative, "imports" targets may name packages.                   *)
FillTarget(kind, m, target) ==
  LET folder == EndsWith(target, "/") IN
  IF kind = "exports" /\ (Len(target) < 2 \/ StartsWith(target, "/")
                          \/ (StartsWith(target, ".") /\ ~StartsWith(target, "./")))
    THEN Err("Export should be relative path and start with \"./\", but got " \o target)
  ELSE IF m.exact THEN (IF folder THEN Err(target \o " had some wrong") ELSE Ok(<<target>>))
  ELSE IF m.folder /\ folder THEN Ok(<<target \o m.rest>>)
  ELSE IF m.folder THEN Err("Expected " \o target \o " is folder mapping")
  ELSE IF folder THEN Err("Expected " \o target \o " is file mapping")
  ELSE Ok(<<Subst(target, "*", m.rest)>>)

Concat(a, b) == IF a.k = "err" THEN a ELSE IF b.k = "err" THEN b ELSE Ok(a.v \o b.v)

RECURSIVE Targets(_, _, _, _), TargetsOf(_, _, _, _, _)
Targets(kind, m, j, cond) ==
  CASE Tag(j) = "s" -> FillTarget(kind, m, j[2])
    [] Tag(j) = "z" -> Ok(<<>>)
    [] Tag(j) = "a" -> TargetsOf(kind, m, j[2], 1, cond)
    [] Tag(j) = "o" -> LET v == Pick(j, cond) IN
                       IF v.k = "err" THEN v
                       ELSE IF v.v = <<>> THEN Ok(<<>>)
                       ELSE Targets(kind, m, v.v[1], cond)
TargetsOf(kind, m, items, i, cond) ==
  IF i > Len(items) THEN Ok(<<>>)
  ELSE Concat(Targets(kind, m, items[i], cond), TargetsOf(kind, m, items, i + 1, cond))

(***************************************************************************************************)
(* The two fields.  j is well-formed.                                                               *)
(***************************************************************************************************)
ExactMatch(i) == [at |-> i, folder |-> FALSE, exact |-> TRUE, rest |-> ""]

SubpathMap(j) == IsObj(j) /\ Len(j[2]) > 0 /\ Direct(j[2][1][1])

ExportsTargets(j, sub, cond) ==             \* sub is "." or starts with "./"
  IF EndsWith(sub, "/") THEN Err("Only requesting file allowed")
  ELSE IF ~SubpathMap(j)
  THEN IF sub = "." THEN Targets("exports", ExactMatch(1), j, cond) ELSE Ok(<<>>)
  ELSE LET keys == [i \in 1..Len(j[2]) |-> j[2][i][1]]
           dots == {i \in 1..Len(keys) : Len(keys[i]) = 1}
       IN  IF sub = "." THEN (IF dots = {} THEN Ok(<<>>)
                              ELSE Targets("exports", ExactMatch(1), j[2][Max(dots)][2], cond))
           ELSE LET m == FindKey([i \in 1..Len(keys) |-> IF i \in dots THEN "//" ELSE From(keys[i], 3)], From(sub, 3))
                IN  IF m.at = 0 THEN Ok(<<>>) ELSE Targets("exports", m, j[2][m.at][2], cond)

ImportsTargets(j, target, cond) ==          \* target starts with "#"
  IF Len(target) = 1 THEN Err("Request should have at least 2 characters")
  ELSE IF StartsWith(target, "#/") THEN Err("Import field key should not start with #/, but got " \o target)
  ELSE IF EndsWith(target, "/") THEN Err("Only requesting file allowed")
  ELSE LET keys == [i \in 1..Len(j[2]) |-> From(j[2][i][1], 2)]
           m == FindKey(keys, From(target, 2))
       IN  IF m.at = 0 THEN Ok(<<>>) ELSE Targets("imports", m, j[2][m.at][2], cond)

(* A target stays inside the package: no prefix of it climbs above the start.                       *)
Inside(target) ==
  LET r == FoldLeft(LAMBDA cd, s : IF cd < 0 \/ s = "" \/ s = "." THEN cd
                                   ELSE IF s = ".." THEN cd - 1 ELSE cd + 1, 0, PathOf(target))
  IN  r >= 0
=============================================================================
