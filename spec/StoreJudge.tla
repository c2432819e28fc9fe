---- MODULE StoreJudge ----
EXTENDS Store
SetOf(s) == {s[i] : i \in 1..Len(s)}
Norm(x) == [f \in DOMAIN Ev0 |-> IF f = "val" THEN SetOf(IF f \in DOMAIN x THEN x[f] ELSE <<>>) ELSE IF f \in DOMAIN x THEN x[f] ELSE Ev0[f]]
RECURSIVE Run(_, _, _, _)
Run(keys, st, es, i) ==
    IF i > Len(es) THEN [at |-> 0, why |-> ""]
    ELSE LET e == Norm(es[i]) f == Fault(keys, st, e)
         IN IF f # "" THEN [at |-> i, why |-> f] ELSE Run(keys, Step(keys, st, e), es, i + 1)
VerdictStore(x) == IF "places" \in DOMAIN x THEN [ok |-> Separate(x.places), want |-> [at |-> 0, why |-> "a place of its own for each key"]] ELSE LET r == Run(x.keys, Init0, x.events, 1) IN [ok |-> r.why = "", want |-> r]
VARIABLES chunk, pos
INSTANCE Judge WITH Verdict <- VerdictStore
====
