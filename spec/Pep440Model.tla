---- MODULE Pep440Model ----
(* The specification of PEP 440 itself, checked over every triple of versions and every
   clause from a universe that has each shape of version around one base release: the
   order is total, and the operators relate to one another the way PEP 440 says.       *)
EXTENDS Pep440

Pres == {<<>>, <<0, 0>>, <<0, 1>>, <<2, 0>>}
Opt == {<<>>, <<0>>, <<1>>}
Locs == {<<>>, <<[n |-> <<1>>, s |-> <<>>]>>, <<[n |-> <<>>, s |-> <<97>>]>>, <<[n |-> <<>>, s |-> <<97>>], [n |-> <<0>>, s |-> <<>>]>>}
Ver(r, p, po, d, l) == [e |-> 0, r |-> r, pre |-> p, post |-> po, dev |-> d, loc |-> l]
Universe == {Ver(<<1>>, p, po, d, <<>>) : p \in Pres, po \in Opt, d \in Opt}
       \cup {Ver(<<1, 0>>, <<>>, <<>>, <<>>, l) : l \in Locs}
       \cup {Ver(r, <<>>, <<>>, <<>>, <<>>) : r \in {<<0>>, <<1, 1>>, <<2>>, <<1, 0, 1>>}}
Ops == {"==", "!=", "<=", ">=", "<", ">", "~="}

VARIABLES a, b, c, phase
Init == a \in Universe /\ b \in Universe /\ c = a /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ c' \in Universe /\ UNCHANGED <<a, b>>

TotalOrder ==
    /\ Cmp(a, b) = 0 - Cmp(b, a)
    /\ Cmp(a, b) < 0 /\ Cmp(b, c) < 0 => Cmp(a, c) < 0
    /\ Cmp(a, b) = 0 => Cmp(a, c) = Cmp(b, c)
Cl(op) == [op |-> op, wild |-> FALSE, v |-> a]
Relations == Allowed(Cl("<=")) = "T" =>
    /\ Accepts(Cl("=="), b) = "T" => Accepts(Cl("<="), b) = "T" /\ Accepts(Cl(">="), b) = "T"
    /\ Accepts(Cl("<"), b) = "T" => Accepts(Cl("<="), b) = "T" /\ Accepts(Cl(">="), b) = "F"
    /\ Accepts(Cl(">"), b) = "T" => Accepts(Cl(">="), b) = "T" /\ Accepts(Cl("<="), b) = "F"
    /\ Accepts(Cl("=="), b) = Not3(Accepts(Cl("!="), b))
    /\ Accepts(Cl("<="), b) = "T" \/ Accepts(Cl(">="), b) = "T"
    /\ Accepts([op |-> "==", wild |-> FALSE, v |-> a], a) = "T"
====
