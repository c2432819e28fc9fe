---- MODULE HttpJudge ----
EXTENDS Http
X0 == [method |-> "GET", url |-> "", lang |-> "", inm |-> "", ims |-> -1, fault |-> FALSE, cut |-> FALSE, status |-> 0, body |-> 0]
Hdr(x) == [f \in DOMAIN Hdr0 |-> IF f \in DOMAIN x THEN x[f] ELSE Hdr0[f]]
Ex(x) == [f \in DOMAIN X0 \union {"h"} |-> IF f = "h" THEN Hdr(x.h) ELSE IF f \in DOMAIN x THEN x[f] ELSE X0[f]]
After(S, e) == LET exs == [j \in 1..Len(e.exs) |-> Ex(e.exs[j])]
               IN {o.st : o \in {o \in UNION {Outcomes(st, e.op, exs, e.now) : st \in S} : Agrees(e.op, exs, e.res, o)}}
RECURSIVE Run(_, _, _)
Run(S, es, n) == IF n > Len(es) THEN [at |-> 0, want |-> {}]
                 ELSE LET T == After(S, es[n])
                      IN IF T = {} THEN [at |-> n, want |-> {[used |-> o.i - 1, got |-> o.got, status |-> o.status, body |-> o.body, url |-> o.url] : o \in UNION {Outcomes(st, es[n].op, [j \in 1..Len(es[n].exs) |-> Ex(es[n].exs[j])], es[n].now) : st \in S}}]
                         ELSE Run(T, es, n + 1)
VerdictHttp(x) == LET r == Run({Init0}, x.events, 1) IN [ok |-> r.at = 0, want |-> r]
VARIABLES chunk, pos
INSTANCE Judge WITH Verdict <- VerdictHttp
====
