------------------------------- MODULE Build -------------------------------
(* How worlds are written down: file trees, options, calls and edits.                               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils

S(x) == <<"s", x>>
B(x) == <<"b", x>>
Z == <<"z">>
A(xs) == <<"a", xs>>
O(kvs) == <<"o", kvs>>

D(p) == [p |-> "/R" \o p, t |-> "d"]
F(p) == [p |-> "/R" \o p, t |-> "f"]
J(p, j) == [p |-> "/R" \o p, t |-> "j", j |-> j, m |-> 0]
L(p, to) == [p |-> "/R" \o p, t |-> "l", to |-> to]

Opts == [ext |-> <<".js", ".json", ".node">>, enf |-> "none", alias |-> <<>>, pr |-> FALSE, sym |-> TRUE,
         df |-> "package.json", mfiles |-> <<"index">>, mfields |-> <<"main">>, bf |-> FALSE, cond |-> <<"node">>,
         ts |-> "", cache |-> 0]

Q(d, q) == [op |-> "resolve", r |-> 1, d |-> "/R" \o d, q |-> q]
QR(r, d, q) == [op |-> "resolve", r |-> r, d |-> "/R" \o d, q |-> q]
SE(d) == [op |-> "side", r |-> 1, d |-> "/R" \o d]

World(fs, o, calls) == [fs |-> fs, res |-> <<o>>, ev |-> calls]

(* All sequences of distinct elements of S with at most n elements.                                   *)
Arrangements(X, n) == UNION {{s \in [1..k -> X] : \A i, j \in 1..k : i # j => s[i] # s[j]} : k \in 0..n}
UpToLen(X, n) == UNION {[1..k -> X] : k \in 0..n}
Map(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
=============================================================================
