---------------------------- MODULE MarkersModel ----------------------------
(* The marker specification checked against itself, for every marker up to a depth, every
   environment and every extra: taking 'extra' out of a marker (what posy records in a
   blueprint) leaves a marker that is true in exactly the same environments, and a marker's
   printed form reads back as the same marker.                                           *)
EXTENDS ReqText
CONSTANT Depth
VARIABLES m, env, extra

Lit(s) == [var |-> <<>>, lit |-> <<s>>]
Var(n) == [var |-> <<n>>, lit |-> <<>>]
Cm(l, op, r) == [t |-> "cmp", op |-> op, l |-> l, r |-> r]
AA == <<97>>  BB == <<66, 46, 98>>  b2 == <<98, 45, 98>>  Three == <<51>>  ThreeO == <<51, 46, 48>>
Leaves == {Cm(Var("extra"), "==", Lit(BB)), Cm(Lit(AA), "!=", Var("extra")), Cm(Var("os_name"), "==", Lit(AA)),
           Cm(Var("python_version"), "==", Lit(Three)), Cm(Lit(AA), "in", Var("os_name")), Cm(Var("platform_machine"), "<", Lit(BB))}
RECURSIVE Trees(_)
Trees(n) == IF n = 0 THEN Leaves
            ELSE LET sub == Trees(n - 1)
                 IN sub \cup {[t |-> t, l |-> l, r |-> r] : t \in {"and", "or"}, l \in sub, r \in (IF n = 1 THEN sub ELSE Leaves)}
Envs == {[os_name |-> o, python_version |-> v] : o \in {AA, BB}, v \in {ThreeO, <<50>>}}
Extras == {<<>>, AA, b2}

With(e, x) == [k \in (DOMAIN e) \cup {"extra"} |-> IF k = "extra" THEN x ELSE e[k]]

RECURSIVE Pr(_)
VarText(n) == LET k == CHOOSE k \in 1..Len(VarTable) : VarTable[k][1] = n IN VarTable[k][2]
OpText(o) == IF o = "in" THEN <<105, 110>> ELSE IF o = "not in" THEN <<110,111,116,32,105,110>> ELSE LET k == CHOOSE k \in 1..Len(Ops) : Ops[k][1] = o IN Ops[k][2]
Operand(o) == IF o.var # <<>> THEN VarText(o.var[1]) ELSE <<34>> \o o.lit[1] \o <<34>>
Pr(x) == IF x.t = "cmp" THEN Operand(x.l) \o <<32>> \o OpText(x.op) \o <<32>> \o Operand(x.r)
            ELSE <<40>> \o Pr(x.l) \o <<32>> \o (IF x.t = "and" THEN <<97,110,100>> ELSE <<111,114>>) \o <<32>> \o Pr(x.r) \o <<41>>

Init == m \in Trees(Depth) /\ env \in Envs /\ extra \in Extras
Next == FALSE /\ UNCHANGED <<m, env, extra>>

\* the definite answers agree (an erroneous part may disappear with 'extra')
SimplifyIsSound ==
    LET w == Without(m, extra) a == Eval(w, env) b == Eval(m, With(env, extra))
    IN ~Mentions(w) /\ (b \cap {"T", "F"} \subseteq a \/ a \subseteq b) /\ a \cap b # {} /\ (a = {"T"} => "F" \notin b) /\ (a = {"F"} => "T" \notin b)
PrintReads == LET p == ParseMarker(Pr(m), TRUE) IN p # <<>> /\ p[1] = m
=============================================================================
