---------------------------- MODULE MetadataModel ----------------------------
(* The metadata reader checked against itself: for every short document over a few field
   lines, the order of different fields, their letter case, unrelated fields and the body
   make no difference.                                                                  *)
EXTENDS Metadata, FiniteSets
CONSTANT MaxLines
VARIABLES lines, body, eol

A == <<65>>
L(name, value) == name \o <<58, 32>> \o value
Up(s) == [i \in 1..Len(s) |-> IF IsLower(s[i]) THEN s[i] - 32 ELSE s[i]]
Base == {L(MV, <<50,46,49>>), L(Up(MV), <<51>>), L(NM, <<97,95,66>>), L(Up(VS), <<49,46,48>>), L(RD, <<98,62,49>>), L(RD, <<99>>), L(RP, <<62,61,51>>), L(PE, <<120>>),
         L(<<88>>, <<121>>), <<32, 122>>, <<88, 32, 89, 58, 122>>}
Init == /\ lines \in UNION {[1..k -> Base] : k \in 0..MaxLines}
        /\ body \in {<<>>, <<10>>, <<10, 110,97,109,101,58,32,122>>}
        /\ eol \in {<<10>>, <<13, 10>>}
Next == FALSE /\ UNCHANGED <<lines, body, eol>>

RECURSIVE Join(_, _)
Join(ls, e) == IF ls = <<>> THEN <<>> ELSE ls[1] \o e \o Join(Tail(ls), e)
Doc(ls) == LET f == Fields(Join(ls, eol) \o body) IN IF f = <<>> THEN <<"malformed">> ELSE Wheel(f[1])
FieldOf(l) == IF IsWs(l[1]) THEN <<>> ELSE Lower(SubSeq(l, 1, NameEnd(l, 1) - 1))
Swap(i) == [lines EXCEPT ![i] = lines[i + 1], ![i + 1] = lines[i]]
NoFolds == \A k \in 1..Len(lines) : lines[k] # <<32, 122>>

OrderDoesNotMatter == NoFolds => \A i \in 1..(Len(lines) - 1) : FieldOf(lines[i]) # FieldOf(lines[i + 1]) => Doc(Swap(i)) = Doc(lines)
CaseDoesNotMatter == NoFolds => \A i \in 1..Len(lines) : LET e == NameEnd(lines[i], 1) IN Doc([lines EXCEPT ![i] = Up(SubSeq(@, 1, e - 1)) \o SubSeq(@, e, Len(@))]) = Doc(lines)
UnrelatedDoNotMatter == NoFolds => Doc(lines \o <<L(<<88>>, <<110,97,109,101,58>>)>>) = Doc(lines)
BodyDoesNotMatter == LET f == Fields(Join(lines, eol)) IN (f = <<>>) = (Fields(Join(lines, eol) \o body) = <<>>)
RepeatedRefused == NoFolds => \A n \in {MV, NM, VS, RP} : Cardinality({k \in 1..Len(lines) : FieldOf(lines[k]) = n}) > 1 => Doc(lines) \in {<<>>, <<"malformed">>}
=============================================================================
