------------------------------ MODULE ReqText ------------------------------
(* Reading PEP 508 requirements, markers and specifier sets from texts (sequences of
   character codes).  Readers take the text and a position and give <<>> (no) or
   <<value, position after>>.                                                         *)
EXTENDS Markers

IsWs(c) == c \in {32, 9}
RECURSIVE Ws(_, _)
Ws(s, i) == IF i <= Len(s) /\ IsWs(s[i]) THEN Ws(s, i + 1) ELSE i

Ops == << <<"<=", <<60,61>>>>, <<"<", <<60>>>>, <<"!=", <<33,61>>>>, <<"==", <<61,61>>>>, <<">=", <<62,61>>>>, <<">", <<62>>>>, <<"~=", <<126,61>>>> >>
Triple == <<61,61,61>>
\* first entry of a table that stands at i
FirstHere(s, i, table) ==
    LET fits == {n \in 1..Len(table) : Here(s, i, table[n][2])}
    IN IF fits = {} THEN <<>> ELSE LET n == CHOOSE n \in fits : \A m \in fits : n <= m IN <<table[n][1], i + Len(table[n][2])>>
ReadOp(s, i) == IF Here(s, i, Triple) THEN <<>> ELSE FirstHere(s, i, Ops)   \* === is not supported

\* ---------------------------------------------------------------- specifiers
IsVersionC(c) == IsAlnum(c) \/ c \in {45, 95, 46, 42, 43, 33}
RECURSIVE VersionEnd(_, _)
VersionEnd(s, i) == IF i <= Len(s) /\ IsVersionC(s[i]) THEN VersionEnd(s, i + 1) ELSE i
ReadSpec(s, i0) ==
    LET op == ReadOp(s, Ws(s, i0))
    IN IF op = <<>> THEN <<>>
       ELSE LET a == Ws(s, op[2]) b == VersionEnd(s, a)
            IN IF a = b THEN <<>> ELSE <<[op |-> op[1], v |-> SubSeq(s, a, b - 1)], Ws(s, b)>>
RECURSIVE ReadSpecs(_, _, _)
ReadSpecs(s, i, acc) ==
    LET x == ReadSpec(s, i)
    IN IF x = <<>> THEN <<>>
       ELSE IF At(s, x[2]) = 44 THEN ReadSpecs(s, x[2] + 1, Append(acc, x[1])) ELSE <<Append(acc, x[1]), x[2]>>
ReadVersionSpec(s, i) ==
    IF At(s, i) = 40
    THEN LET x == ReadSpecs(s, i + 1, <<>>)
         IN IF x = <<>> \/ At(s, x[2]) # 41 THEN <<>> ELSE <<x[1], x[2] + 1>>
    ELSE ReadSpecs(s, i, <<>>)
\* a whole specifier set; nothing at all is the empty set
ParseSpecs(s) ==
    IF Ws(s, 1) > Len(s) THEN << <<>> >>
    ELSE LET x == ReadVersionSpec(s, 1) IN IF x = <<>> \/ Ws(s, x[2]) <= Len(s) THEN <<>> ELSE <<x[1]>>

\* ---------------------------------------------------------------- markers
VarTable == << <<"python_version", <<112,121,116,104,111,110,95,118,101,114,115,105,111,110>>>>,
               <<"python_full_version", <<112,121,116,104,111,110,95,102,117,108,108,95,118,101,114,115,105,111,110>>>>,
               <<"os_name", <<111,115,95,110,97,109,101>>>>,
               <<"sys_platform", <<115,121,115,95,112,108,97,116,102,111,114,109>>>>,
               <<"platform_release", <<112,108,97,116,102,111,114,109,95,114,101,108,101,97,115,101>>>>,
               <<"platform_system", <<112,108,97,116,102,111,114,109,95,115,121,115,116,101,109>>>>,
               <<"platform_version", <<112,108,97,116,102,111,114,109,95,118,101,114,115,105,111,110>>>>,
               <<"platform_machine", <<112,108,97,116,102,111,114,109,95,109,97,99,104,105,110,101>>>>,
               <<"platform_python_implementation", <<112,108,97,116,102,111,114,109,95,112,121,116,104,111,110,95,105,109,112,108,101,109,101,110,116,97,116,105,111,110>>>>,
               <<"implementation_name", <<105,109,112,108,101,109,101,110,116,97,116,105,111,110,95,110,97,109,101>>>>,
               <<"implementation_version", <<105,109,112,108,101,109,101,110,116,97,116,105,111,110,95,118,101,114,115,105,111,110>>>>,
               <<"extra", <<101,120,116,114,97>>>>,
               <<"os_name", <<111,115,46,110,97,109,101>>>>,
               <<"sys_platform", <<115,121,115,46,112,108,97,116,102,111,114,109>>>>,
               <<"platform_version", <<112,108,97,116,102,111,114,109,46,118,101,114,115,105,111,110>>>>,
               <<"platform_machine", <<112,108,97,116,102,111,114,109,46,109,97,99,104,105,110,101>>>>,
               <<"platform_python_implementation", <<112,108,97,116,102,111,114,109,46,112,121,116,104,111,110,95,105,109,112,108,101,109,101,110,116,97,116,105,111,110>>>>,
               <<"platform_python_implementation", <<112,121,116,104,111,110,95,105,109,112,108,101,109,101,110,116,97,116,105,111,110>>>> >>
StrC == {32, 9} \cup (33..126 \ {34, 39, 92})
RECURSIVE StrEnd(_, _, _)
StrEnd(s, i, ok) == IF i <= Len(s) /\ s[i] \in ok THEN StrEnd(s, i + 1, ok) ELSE i
ReadStr(s, i) ==
    LET q == At(s, i)
        j == StrEnd(s, i + 1, StrC \cup ({34, 39} \ {q}))
    IN IF q \notin {34, 39} \/ At(s, j) # q THEN <<>> ELSE <<[var |-> <<>>, lit |-> <<SubSeq(s, i + 1, j - 1)>>], j + 1>>
ReadValue(s, i0, extraOK) ==
    LET i == Ws(s, i0) v == FirstHere(s, i, VarTable)
    IN IF v # <<>> THEN IF v[1] = "extra" /\ ~extraOK THEN <<>> ELSE <<[var |-> <<v[1]>>, lit |-> <<>>], v[2]>>
       ELSE ReadStr(s, i)
ReadMarkerOp(s, i0) ==
    LET i == Ws(s, i0) op == ReadOp(s, i)
    IN IF op # <<>> THEN op
       ELSE IF Here(s, i, <<105,110>>) THEN <<"in", i + 2>>
       ELSE IF Here(s, i, <<110,111,116>>) /\ Ws(s, i + 3) > i + 3 /\ Here(s, Ws(s, i + 3), <<105,110>>) THEN <<"not in", Ws(s, i + 3) + 2>>
       ELSE <<>>
RECURSIVE ReadOr(_, _, _), ReadAnd(_, _, _), ReadExpr(_, _, _)
ReadExpr(s, i0, x) ==
    LET i == Ws(s, i0)
    IN IF At(s, i) = 40
       THEN LET m == ReadOr(s, i + 1, x)
            IN IF m = <<>> \/ At(s, Ws(s, m[2])) # 41 THEN <<>> ELSE <<m[1], Ws(s, m[2]) + 1>>
       ELSE LET l == ReadValue(s, i, x)
                op == IF l = <<>> THEN <<>> ELSE ReadMarkerOp(s, l[2])
                r == IF op = <<>> THEN <<>> ELSE ReadValue(s, op[2], x)
            IN IF r = <<>> THEN <<>> ELSE <<[t |-> "cmp", op |-> op[1], l |-> l[1], r |-> r[1]], r[2]>>
ReadAnd(s, i, x) ==
    LET l == ReadExpr(s, i, x)
    IN IF l = <<>> THEN <<>>
       ELSE LET k == Ws(s, l[2])
            IN IF Here(s, k, <<97,110,100>>)
               THEN LET r == ReadAnd(s, k + 3, x) IN IF r = <<>> THEN l ELSE <<[t |-> "and", l |-> l[1], r |-> r[1]], r[2]>>
               ELSE l
ReadOr(s, i, x) ==
    LET l == ReadAnd(s, i, x)
    IN IF l = <<>> THEN <<>>
       ELSE LET k == Ws(s, l[2])
            IN IF Here(s, k, <<111,114>>)
               THEN LET r == ReadOr(s, k + 2, x) IN IF r = <<>> THEN l ELSE <<[t |-> "or", l |-> l[1], r |-> r[1]], r[2]>>
               ELSE l
ParseMarker(s, extraOK) == LET m == ReadOr(s, 1, extraOK) IN IF m = <<>> \/ Ws(s, m[2]) <= Len(s) THEN <<>> ELSE <<m[1]>>

\* ---------------------------------------------------------------- requirements
RECURSIVE IdentEnd(_, _)
IdentEnd(s, i) == IF i <= Len(s) /\ (IsAlnum(s[i]) \/ IsSep(s[i])) THEN IdentEnd(s, i + 1) ELSE i
ReadIdent(s, i) == LET j == IdentEnd(s, i) w == SubSeq(s, i, j - 1) IN IF IsName(w) THEN <<w, j>> ELSE <<>>
RECURSIVE ReadExtras(_, _, _)
\* after '[' or a comma
ReadExtras(s, i0, acc) ==
    LET i == Ws(s, i0) e == ReadIdent(s, i)
    IN IF e = <<>> THEN (IF acc = <<>> /\ At(s, i) = 93 THEN << <<>>, i + 1>> ELSE <<>>)
       ELSE LET k == Ws(s, e[2]) all == Append(acc, e[1])
            IN IF At(s, k) = 44 THEN ReadExtras(s, k + 1, all) ELSE IF At(s, k) = 93 THEN <<all, k + 1>> ELSE <<>>
ParseReq(s, extraOK) ==
    LET n == ReadIdent(s, Ws(s, 1))
        i1 == IF n = <<>> THEN 1 ELSE Ws(s, n[2])
        ex == IF At(s, i1) = 91 THEN ReadExtras(s, i1 + 1, <<>>) ELSE << <<>>, i1>>
        i2 == IF ex = <<>> THEN i1 ELSE Ws(s, ex[2])
        sp0 == ReadVersionSpec(s, i2)
        sp == IF sp0 = <<>> THEN << <<>>, i2>> ELSE sp0
        i3 == Ws(s, sp[2])
        m == IF At(s, i3) = 59 THEN ReadOr(s, i3 + 1, extraOK) ELSE <<>>
        i4 == IF m = <<>> THEN i3 ELSE Ws(s, m[2])
    IN IF n = <<>> \/ ex = <<>> \/ i4 <= Len(s) THEN <<>>
       ELSE << [name |-> n[1], extras |-> ex[1], specs |-> sp[1], marker |-> IF m = <<>> THEN <<>> ELSE <<m[1]>>] >>

\* ---------------------------------------------------------------- what a text means
\* and/or chains without their grouping
RECURSIVE Chain(_, _)
RECURSIVE Flat(_)
Chain(m, t) == IF m.t = t THEN Chain(m.l, t) \o Chain(m.r, t) ELSE <<Flat(m)>>
Flat(m) == IF m.t = "cmp" THEN m ELSE [t |-> m.t, of |-> Chain(m, m.t)]
FlatOpt(m) == IF m = <<>> THEN <<>> ELSE <<Flat(m[1])>>
SpecMeaning(cl) == LET p == ParseClause(cl.op, cl.v) IN IF p = <<>> THEN [op |-> cl.op, text |-> cl.v] ELSE [op |-> cl.op, wild |-> p[1].wild, v |-> p[1].v]
SpecsMeaning(cls) == [k \in 1..Len(cls) |-> SpecMeaning(cls[k])]
ReqMeaning(r) == [name |-> Norm(r.name), extras |-> {Norm(r.extras[k]) : k \in 1..Len(r.extras)}, specs |-> SpecsMeaning(r.specs), marker |-> FlatOpt(r.marker)]
=============================================================================
