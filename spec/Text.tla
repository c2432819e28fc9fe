------------------------------- MODULE Text --------------------------------
(* Reading texts, given as sequences of character codes: PEP 440 versions and
   specifiers, PEP 503 names.  Every reader returns <<>> if the text is not of that
   kind, and <<value>> if it is.                                                      *)
EXTENDS Pep440

IsDigit(c) == 48 <= c /\ c <= 57
IsUpper(c) == 65 <= c /\ c <= 90
IsLower(c) == 97 <= c /\ c <= 122
IsAlnum(c) == IsDigit(c) \/ IsUpper(c) \/ IsLower(c)
IsSep(c) == c \in {45, 46, 95}                       \* - . _
LowerC(c) == IF IsUpper(c) THEN c + 32 ELSE c
Lower(s) == [i \in 1..Len(s) |-> LowerC(s[i])]
At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0

\* does s continue with t at position i?
Here(s, i, t) == i + Len(t) - 1 <= Len(s) /\ \A k \in 1..Len(t) : s[i + k - 1] = t[k]

RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN DigitsEnd(s, i + 1) ELSE i
RECURSIVE NumFrom(_, _, _, _)
\* (numbers beyond the model's integers are all the same)
NumFrom(s, i, j, acc) == IF i >= j \/ acc >= 100000000 THEN acc ELSE NumFrom(s, i + 1, j, acc * 10 + (s[i] - 48))
Num(s, i, j) == NumFrom(s, i, j, 0)

RECURSIVE ReleaseFrom(_, _, _)
\* release segment from i on, given what was read so far: <<segments, position after>>
ReleaseFrom(s, i, acc) ==
    LET j == DigitsEnd(s, i)
    IN IF j = i THEN <<acc, i>>
       ELSE IF At(s, j) = 46 /\ IsDigit(At(s, j + 1)) THEN ReleaseFrom(s, j + 1, Append(acc, Num(s, i, j)))
       ELSE <<Append(acc, Num(s, i, j)), j>>

OptSep(s, i) == IF IsSep(At(s, i)) THEN i + 1 ELSE i
\* an optional number after a label: an optional separator, then digits (0 if there are none)
LabelNum(s, i) == LET k == OptSep(s, i) j == DigitsEnd(s, k) IN <<Num(s, k, j), j>>

PreLabels == << <<0, <<97,108,112,104,97>>>>, <<1, <<98,101,116,97>>>>, <<2, <<112,114,101,118,105,101,119>>>>,
                <<2, <<112,114,101>>>>, <<2, <<114,99>>>>, <<0, <<97>>>>, <<1, <<98>>>>, <<2, <<99>>>> >>
PostLabels == << <<0, <<112,111,115,116>>>>, <<0, <<114,101,118>>>>, <<0, <<114>>>> >>
DevLabels == << <<0, <<100,101,118>>>> >>

\* [label, number, position after] of the first label that fits at i, or <<>>
Labelled(s, i, labels) ==
    LET k == OptSep(s, i)
        fits == {n \in 1..Len(labels) : Here(s, k, labels[n][2])}
    IN IF fits = {} THEN <<>>
       ELSE LET n == CHOOSE n \in fits : \A m \in fits : n <= m
                ln == LabelNum(s, k + Len(labels[n][2]))
            IN <<labels[n][1], ln[1], ln[2]>>

RECURSIVE AlnumEnd(_, _)
AlnumEnd(s, i) == IF i <= Len(s) /\ (IsDigit(s[i]) \/ IsLower(s[i])) THEN AlnumEnd(s, i + 1) ELSE i
LocSeg(s, i, j) == IF DigitsEnd(s, i) >= j THEN [n |-> <<Num(s, i, j)>>, s |-> <<>>] ELSE [n |-> <<>>, s |-> SubSeq(s, i, j - 1)]
RECURSIVE LocalFrom(_, _, _)
LocalFrom(s, i, acc) ==
    LET j == AlnumEnd(s, i)
    IN IF j = i THEN <<>>
       ELSE IF j > Len(s) THEN <<Append(acc, LocSeg(s, i, j))>>
       ELSE IF IsSep(s[j]) THEN LocalFrom(s, j + 1, Append(acc, LocSeg(s, i, j)))
       ELSE <<>>

ParseVersion(text) ==
    LET s == Lower(text)
        i0 == IF At(s, 1) = 118 THEN 2 ELSE 1
        d == DigitsEnd(s, i0)
        hasE == d > i0 /\ At(s, d) = 33
        epoch == IF hasE THEN Num(s, i0, d) ELSE 0
        rel == ReleaseFrom(s, IF hasE THEN d + 1 ELSE i0, <<>>)
        i1 == rel[2]
        pre == Labelled(s, i1, PreLabels)
        i2 == IF pre = <<>> THEN i1 ELSE pre[3]
        dash == At(s, i2) = 45 /\ IsDigit(At(s, i2 + 1))
        post == IF dash THEN <<0, Num(s, i2 + 1, DigitsEnd(s, i2 + 1)), DigitsEnd(s, i2 + 1)>> ELSE Labelled(s, i2, PostLabels)
        i3 == IF post = <<>> THEN i2 ELSE post[3]
        dev == Labelled(s, i3, DevLabels)
        i4 == IF dev = <<>> THEN i3 ELSE dev[3]
        loc == IF i4 > Len(s) THEN << <<>> >> ELSE IF s[i4] = 43 THEN LocalFrom(s, i4 + 1, <<>>) ELSE <<>>
    IN IF rel[1] = <<>> \/ loc = <<>> THEN <<>>
       ELSE << [e |-> epoch, r |-> rel[1],
                pre |-> IF pre = <<>> THEN <<>> ELSE <<pre[1], pre[2]>>,
                post |-> IF post = <<>> THEN <<>> ELSE <<post[2]>>,
                dev |-> IF dev = <<>> THEN <<>> ELSE <<dev[2]>>,
                loc |-> loc[1]] >>

\* the right-hand side of a specifier: a version, perhaps with .* at its end
ParseClause(op, text) ==
    LET n == Len(text)
        wild == n >= 2 /\ text[n - 1] = 46 /\ text[n] = 42
        v == ParseVersion(IF wild THEN SubSeq(text, 1, n - 2) ELSE text)
    IN IF v = <<>> THEN <<>> ELSE << [op |-> op, wild |-> wild, v |-> v[1]] >>

\* ---------------------------------------------------------------- names (PEP 503)
IsName(s) == /\ s # <<>> /\ IsAlnum(s[1]) /\ IsAlnum(s[Len(s)])
             /\ \A i \in 1..Len(s) : IsAlnum(s[i]) \/ IsSep(s[i])
RECURSIVE NormFrom(_, _, _)
NormFrom(s, i, acc) ==
    IF i > Len(s) THEN acc
    ELSE IF IsSep(s[i]) THEN NormFrom(s, i + 1, IF acc # <<>> /\ acc[Len(acc)] = 45 THEN acc ELSE Append(acc, 45))
    ELSE NormFrom(s, i + 1, Append(acc, LowerC(s[i])))
Norm(s) == NormFrom(s, 1, <<>>)

\* ---------------------------------------------------------------- hashes
\* hashes: algorithm, '=', hexadecimal digits
IsHex(c) == IsDigit(c) \/ (97 <= LowerC(c) /\ LowerC(c) <= 102)
Sha256 == <<115,104,97,50,53,54>>
ParseHash(s) ==
    LET eqs == {i \in 1..Len(s) : s[i] = 61}
        e == IF eqs = {} THEN 0 ELSE CHOOSE i \in eqs : \A j \in eqs : i <= j
        mode == SubSeq(s, 1, e - 1)
        hex == SubSeq(s, e + 1, Len(s))
    IN IF e < 2 \/ ~(\A i \in 1..Len(mode) : IsAlnum(mode[i])) \/ ~(\A i \in 1..Len(hex) : IsHex(hex[i]))
          \/ Len(hex) % 2 = 1 \/ Len(hex) < 32 \/ (mode = Sha256 /\ Len(hex) # 64)
       THEN <<>> ELSE <<mode, Lower(hex)>>

\* ---------------------------------------------------------------- plain text
CmpText(a, b) == CmpSeq(a, b)
Contains(s, t) == \E i \in 1..(Len(s) + 1) : Here(s, i, t)
=============================================================================
