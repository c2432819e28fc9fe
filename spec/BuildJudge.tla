---- MODULE BuildJudge ----
EXTENDS Build
Sets(u) == [u EXCEPT !.req = [p \in 1..u.n |-> ToSet(u.req[p])], !.stat = [p \in 1..u.n |-> ToSet(u.stat[p])], !.dyn = [p \in 1..u.n |-> ToSet(u.dyn[p])], !.natives = ToSet(u.natives), !.std = ToSet(u.std)]
\* nothing is downloaded twice, either
VerdictBuild(x) ==
    LET r == Follow(Sets(x.u), Empty, x.events, 1)
        again == {i \in 1..Len(x.got) : x.got[i].n > 1 + x.deaths}
        w == IF r.why # "" THEN r ELSE IF again # {} THEN [at |-> 0, why |-> "a file is downloaded again"] ELSE r
    IN [ok |-> w.why = "", want |-> w]
VARIABLES chunk, pos
INSTANCE Judge WITH Verdict <- VerdictBuild
====
