------------------------------ MODULE Metadata ------------------------------
(* Core metadata files (METADATA, PYBI, PKG-INFO): header lines "name: value", where a line
   that starts with a blank continues the one before, up to an empty line or the end; then
   anything.  The fields of the same name (letter case aside) are collected in order.    *)
EXTENDS ReqText, Integers

\* ---------------------------------------------------------------- lines
RECURSIVE LinesFrom(_, _, _)
\* the lines up to the first empty one; each as text
LinesFrom(s, i, cur) ==
    IF i > Len(s) THEN <<cur>>
    ELSE IF s[i] \in {10, 13}
         THEN IF cur = <<>> THEN <<cur>>
              ELSE <<cur>> \o LinesFrom(s, IF s[i] = 13 /\ At(s, i + 1) = 10 THEN i + 2 ELSE i + 1, <<>>)
         ELSE LinesFrom(s, i + 1, Append(cur, s[i]))
Lines(s) == LinesFrom(s, 1, <<>>)

NameC(c) == 33 <= c /\ c <= 126 /\ c # 58
RECURSIVE NameEnd(_, _)
NameEnd(l, i) == IF i <= Len(l) /\ NameC(l[i]) THEN NameEnd(l, i + 1) ELSE i

\* <<fields>>, a sequence of [n, v], or <<>> if some line is malformed.  Only an empty line ends it.
RECURSIVE FieldsOf(_, _, _)
FieldsOf(ls, k, acc) ==
    IF k > Len(ls) \/ ls[k] = <<>> THEN <<acc>>
    ELSE LET l == ls[k] e == NameEnd(l, 1)
         IN IF IsWs(l[1]) THEN IF acc = <<>> THEN <<>> ELSE FieldsOf(ls, k + 1, [acc EXCEPT ![Len(acc)].v = @ \o <<10>> \o l])
            ELSE IF e = 1 \/ At(l, e) # 58 THEN <<>>
            ELSE FieldsOf(ls, k + 1, Append(acc, [n |-> Lower(SubSeq(l, 1, e - 1)), v |-> SubSeq(l, Ws(l, e + 1), Len(l))]))
Fields(s) == FieldsOf(Lines(s), 1, <<>>)
All(fs, name) == LET RECURSIVE G(_) G(k) == IF k > Len(fs) THEN <<>> ELSE (IF fs[k].n = name THEN <<fs[k].v>> ELSE <<>>) \o G(k + 1) IN G(1)

\* a value that is not plainly on one line: tools differ in what they make of it
RECURSIVE TrimEnd(_)
TrimEnd(v) == IF v # <<>> /\ (IsWs(v[Len(v)]) \/ v[Len(v)] \in {10, 11, 12, 13}) THEN TrimEnd(SubSeq(v, 1, Len(v) - 1)) ELSE v
Odd(v) == TrimEnd(v) # v \/ \E i \in 1..Len(v) : v[i] \in {10, 11, 12, 160} \/ v[i] > 127

\* ---------------------------------------------------------------- the fields
MV == <<109,101,116,97,100,97,116,97,45,118,101,114,115,105,111,110>>
NM == <<110,97,109,101>>
VS == <<118,101,114,115,105,111,110>>
RD == <<114,101,113,117,105,114,101,115,45,100,105,115,116>>
RP == <<114,101,113,117,105,114,101,115,45,112,121,116,104,111,110>>
PE == <<112,114,111,118,105,100,101,115,45,101,120,116,114,97>>
PV == <<112,121,98,105,45,101,110,118,105,114,111,110,109,101,110,116,45,109,97,114,107,101,114,45,118,97,114,105,97,98,108,101,115>>
PT == <<112,121,98,105,45,119,104,101,101,108,45,116,97,103>>
PP == <<112,121,98,105,45,112,97,116,104,115>>

Range(q) == {q[k] : k \in 1..Len(q)}
OddIn(fs, names) == \E k \in 1..Len(fs) : fs[k].n \in names /\ Odd(fs[k].v)

\* Common part: "bad" if it must be refused, else [name, version]
Common(fs) ==
    LET mv == All(fs, MV) n == All(fs, NM) v == All(fs, VS)
    IN IF Len(mv) # 1 \/ Len(n) # 1 \/ Len(v) # 1 THEN <<>>
       ELSE LET pm == ParseVersion(TrimEnd(mv[1])) pv == ParseVersion(TrimEnd(v[1]))
            IN IF pm = <<>> \/ pv = <<>> \/ ~IsName(TrimEnd(n[1])) THEN <<>>
               ELSE IF pm[1].e > 0 \/ pm[1].r[1] >= 3 THEN <<>>
               ELSE <<[name |-> Norm(TrimEnd(n[1])), v |-> pv[1]]>>

Wheel(fs) ==
    LET c == Common(fs)
        rd == All(fs, RD) rp == All(fs, RP) pe == All(fs, PE)
        prd == [k \in 1..Len(rd) |-> ParseReq(TrimEnd(rd[k]), TRUE)]
        prp == IF rp = <<>> THEN << <<>> >> ELSE ParseSpecs(TrimEnd(rp[1]))
    IN IF c = <<>> \/ Len(rp) > 1 \/ prp = <<>> \/ (\E k \in 1..Len(prd) : prd[k] = <<>>) \/ (\E k \in 1..Len(pe) : ~IsName(TrimEnd(pe[k]))) THEN <<>>
       ELSE <<[name |-> c[1].name, v |-> c[1].v, reqs |-> [k \in 1..Len(prd) |-> ReqMeaning(prd[k][1])],
               rp |-> SpecsMeaning(prp[1]), extras |-> {Norm(TrimEnd(pe[k])) : k \in 1..Len(pe)}]>>

\* jsons: what the JSON texts among the values mean: [s, pairs], pairs a sequence of <<key, value>>
Decoded(jsons, t) == {jsons[k].pairs : k \in {k \in 1..Len(jsons) : jsons[k].s = t}}
Pybi(fs, jsons) ==
    LET c == Common(fs)
        pv == All(fs, PV) pp == All(fs, PP)
    IN IF c = <<>> \/ Len(pv) # 1 \/ Len(pp) # 1 THEN <<>>
       ELSE IF Decoded(jsons, pv[1]) = {} \/ Decoded(jsons, pp[1]) = {} THEN <<>>
       ELSE <<[name |-> c[1].name, v |-> c[1].v, tags |-> All(fs, PT),
               vars |-> Range(CHOOSE p \in Decoded(jsons, pv[1]) : TRUE), paths |-> Range(CHOOSE p \in Decoded(jsons, pp[1]) : TRUE)]>>

\* ---------------------------------------------------------------- judging posy
VerdictMetadata(x) ==
    LET fs == Fields(x.s)
        doc == IF fs = <<>> THEN <<>> ELSE IF x.kind = "wheel" THEN Wheel(fs[1]) ELSE Pybi(fs[1], x.jsons)
        odd == fs # <<>> /\ OddIn(fs[1], IF x.kind = "wheel" THEN {MV, NM, VS, RD, RP, PE} ELSE {MV, NM, VS, PV, PT, PP})
        got == IF x.kind = "wheel"
               THEN [name |-> Norm(x.name), v |-> ParseVersion(x.v), reqs |-> [k \in 1..Len(x.reqs) |-> LET r == ParseReq(x.reqs[k], TRUE) IN IF r = <<>> THEN <<>> ELSE ReqMeaning(r[1])],
                     rp |-> LET r == ParseSpecs(x.rp) IN IF r = <<>> THEN <<"?">> ELSE SpecsMeaning(r[1]), extras |-> {Norm(x.extras[k]) : k \in 1..Len(x.extras)}]
               ELSE [name |-> Norm(x.name), v |-> ParseVersion(x.v), tags |-> x.tags, vars |-> Range(x.vars), paths |-> Range(x.paths)]
    IN IF x.status = "panic" THEN [ok |-> FALSE, want |-> <<"an answer">>]
       ELSE IF doc = <<>> THEN [ok |-> x.status = "err", want |-> <<"refused">>]
       ELSE IF x.status = "err" THEN [ok |-> odd, want |-> <<"accepted", doc[1]>>]
       ELSE [ok |-> got = [doc[1] EXCEPT !.v = <<@>>] \/ (odd /\ x.kind = "pybi"), want |-> doc[1]]
=============================================================================
