---- MODULE Search ----
\* The search through rewrites: a request leads to candidates, each of them one rewrite further, tried in their order;
\* a candidate that leads nowhere is given up and the next one tried, one that is reached through too many rewrites,
\* or after too many attempts, ends the search as a whole.
\* Whatever the descriptions and options say (each request has an arbitrary number of candidates and may be found or not),
\* the search is over after a bounded number of attempts, no deeper than the bound, and finds the first that is there
\* of those it looked at.
EXTENDS Naturals, Sequences, IOUtils, TLC

Env(n, d) == IF n \in DOMAIN IOEnv THEN IOEnv[n] ELSE d
Variant == Env("VP_VARIANT", "")
Size == Env("VP_SETUP", "small")
Fan == IF Size = "small" THEN 2 ELSE 3          \* candidates of a request, at most
Depth == CASE Size = "small" -> 4 [] Size = "wide" -> 3 [] OTHER -> 6        \* rewrites on the way to a request, at most
Steps == CASE Size = "small" -> 9 [] Size = "wide" -> 12 [] OTHER -> 24       \* attempts of one call, at most

VARIABLES stack,    \* of each request on the way: how many of its candidates are not tried yet
          steps,    \* attempts so far
          how       \* "run", "found", "none" (all were tried) or "over" (a bound was met)

vars == <<stack, steps, how>>

Init == /\ stack \in {<<n>> : n \in 0..Fan}
        /\ steps = 1
        /\ how = "run"

\* Candidate of the request on top, with n candidates of its own.
Try(n) == /\ how = "run" /\ stack # <<>> /\ Head(stack) > 0
          /\ steps' = steps + 1
          /\ LET rest == <<Head(stack) - 1>> \o Tail(stack) IN
             IF Len(stack) > Depth \/ (steps' > Steps /\ Variant # "nobudget")
             THEN IF Variant = "goon"                     \* a faulty design: given up like any other
                  THEN stack' = rest /\ how' = how
                  ELSE stack' = rest /\ how' = "over"
             ELSE stack' = <<n>> \o rest /\ how' = how

Found == /\ how = "run" /\ stack # <<>>
         /\ how' = "found" /\ UNCHANGED <<stack, steps>>

GiveUp == /\ how = "run" /\ stack # <<>> /\ Head(stack) = 0
          /\ stack' = Tail(stack)
          /\ how' = IF Tail(stack) = <<>> THEN "none" ELSE "run"
          /\ UNCHANGED steps

Next == (\E n \in 0..Fan : Try(n)) \/ Found \/ GiveUp

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Bounded == Len(stack) <= Depth + 1 /\ steps <= Steps + 1
\* Each step uses up something: none of them can be repeated for ever.
RECURSIVE Left(_)
Left(s) == IF s = <<>> THEN 0 ELSE Head(s) + 1 + Left(Tail(s))
Over == how = "over" => (Len(stack) = Depth + 1 \/ steps = Steps + 1)
Shrinks == [][steps' > steps \/ Left(stack') < Left(stack) \/ how' # how]_vars
Ends == <>(how # "run")
====
