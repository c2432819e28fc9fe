------------------------------- MODULE Pep440 -------------------------------
(* PEP 440: versions, their order, and what a version specifier means.

   A version is a record
     e    epoch                       r    release segment, a non-empty sequence
     pre  <<>> or <<kind, n>> with kind 0 = a, 1 = b, 2 = rc
     post <<>> or <<n>>               dev  <<>> or <<n>>
     loc  local label: sequence of segments, each [n |-> <<num>>, s |-> <<>>] or
          [n |-> <<>>, s |-> character codes]

   A clause is [op, wild, v]; a specifier set is a sequence of clauses, all of which
   must hold.  Three-valued answers: "T", "F", and "X" where PEP 440's text and its
   reference implementation disagree, so that either answer is acceptable.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* ---------------------------------------------------------------- order
RECURSIVE CmpFrom(_, _, _)
\* lexicographic comparison of two sequences of numbers; a prefix is smaller
CmpFrom(a, b, i) ==
    IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE 0 - 1)
    ELSE IF i > Len(b) THEN 1
    ELSE IF a[i] < b[i] THEN 0 - 1
    ELSE IF a[i] > b[i] THEN 1
    ELSE CmpFrom(a, b, i + 1)
CmpSeq(a, b) == CmpFrom(a, b, 1)

RECURSIVE Trim(_)
Trim(r) == IF r = <<>> THEN r ELSE IF r[Len(r)] = 0 THEN Trim(SubSeq(r, 1, Len(r) - 1)) ELSE r

\* 1.0.dev1 sorts before 1.0a1; otherwise having no pre-release sorts last
PreKey(v) == IF v.pre = <<>>
             THEN IF v.post = <<>> /\ v.dev # <<>> THEN <<0, 0>> ELSE <<4, 0>>
             ELSE <<v.pre[1] + 1, v.pre[2]>>
PostKey(v) == IF v.post = <<>> THEN <<0, 0>> ELSE <<1, v.post[1]>>
DevKey(v) == IF v.dev = <<>> THEN <<1, 0>> ELSE <<0, v.dev[1]>>
SegKey(s) == IF s.n # <<>> THEN <<1, s.n[1]>> ELSE <<0>> \o s.s

RECURSIVE CmpLocFrom(_, _, _)
CmpLocFrom(a, b, i) ==
    IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE 0 - 1)
    ELSE IF i > Len(b) THEN 1
    ELSE LET c == CmpSeq(SegKey(a[i]), SegKey(b[i]))
         IN IF c # 0 THEN c ELSE CmpLocFrom(a, b, i + 1)

First(cs) == LET nz == {i \in 1..Len(cs) : cs[i] # 0}
             IN IF nz = {} THEN 0 ELSE cs[CHOOSE i \in nz : \A j \in nz : i <= j]

Cmp(a, b) == First(<<
    CmpSeq(<<a.e>>, <<b.e>>),
    CmpSeq(Trim(a.r), Trim(b.r)),
    CmpSeq(PreKey(a), PreKey(b)),
    CmpSeq(PostKey(a), PostKey(b)),
    CmpSeq(DevKey(a), DevKey(b)),
    CmpLocFrom(a.loc, b.loc, 1) >>)

Public(v) == [v EXCEPT !.loc = <<>>]
SameBase(a, b) == a.e = b.e /\ Trim(a.r) = Trim(b.r)
IsPre(v) == v.pre # <<>> \/ v.dev # <<>>

\* ---------------------------------------------------------------- specifiers
Seg(r, i) == IF i <= Len(r) THEN r[i] ELSE 0

PrefixMatch(p, c) ==
    /\ p.e = c.e
    /\ IF p.pre = <<>> /\ p.post = <<>>
       THEN \A i \in 1..Len(p.r) : p.r[i] = Seg(c.r, i)
       ELSE /\ Trim(p.r) = Trim(c.r)
            /\ p.pre = c.pre
            /\ p.post # <<>> => p.post = c.post

B(x) == IF x THEN "T" ELSE "F"
Not3(x) == CASE x = "T" -> "F" [] x = "F" -> "T" [] OTHER -> "X"
And3(x, y) == IF x = "F" \/ y = "F" THEN "F" ELSE IF x = "X" \/ y = "X" THEN "X" ELSE "T"

Equals(v, c) == B(IF v.loc = <<>> THEN Cmp(Public(c), v) = 0 ELSE Cmp(c, v) = 0)

Less(v, c) ==
    IF Cmp(Public(c), v) >= 0 THEN "F"
    ELSE IF IsPre(v) \/ ~IsPre(c) \/ ~SameBase(v, c) THEN "T"
    ELSE IF v.post = <<>> THEN "F"                        \* a pre-release of v
    ELSE IF c.pre = <<>> /\ c.post = v.post THEN "F"      \* <1.0.post1 and 1.0.post1.dev0
    ELSE "X"                                             \* <1.0.post1 and 1.0a1

Greater(v, c) ==
    IF Cmp(Public(c), v) <= 0 THEN "F"
    ELSE IF ~SameBase(v, c) THEN "T"
    ELSE IF v.post = <<>> /\ c.post # <<>> /\ c.pre = v.pre /\ v.dev = <<>> THEN "F"  \* a post-release of v
    ELSE IF v.post = <<>> /\ c.post # <<>> THEN "X"       \* >1.0a1 and 1.0.post1
    ELSE IF c.loc # <<>> THEN "X"                        \* >1.0a1 and 1.0+local
    ELSE "T"

Compatible(v, c) == And3(B(Cmp(Public(c), v) >= 0),
    B(PrefixMatch([v EXCEPT !.r = SubSeq(v.r, 1, Len(v.r) - 1), !.pre = <<>>, !.post = <<>>, !.dev = <<>>], c)))

Accepts(cl, c) ==
    LET v == cl.v IN
    CASE cl.op = "==" -> IF cl.wild THEN B(PrefixMatch(v, c)) ELSE Equals(v, c)
      [] cl.op = "!=" -> IF cl.wild THEN B(~PrefixMatch(v, c)) ELSE Not3(Equals(v, c))
      [] cl.op = "<=" -> B(Cmp(Public(c), v) <= 0)
      [] cl.op = ">=" -> B(Cmp(Public(c), v) >= 0)
      [] cl.op = "<"  -> Less(v, c)
      [] cl.op = ">"  -> Greater(v, c)
      [] cl.op = "~=" -> Compatible(v, c)

RECURSIVE AcceptsAll(_, _)
AcceptsAll(cls, c) == IF cls = <<>> THEN "T" ELSE And3(Accepts(Head(cls), c), AcceptsAll(Tail(cls), c))

\* Is the clause one PEP 440 allows at all?  ("X": allowed by PEP 440, not by newer tools)
Allowed(cl) ==
    IF cl.wild
    THEN IF cl.op \notin {"==", "!="} \/ cl.v.dev # <<>> \/ cl.v.loc # <<>> THEN "F"
         ELSE IF cl.v.pre # <<>> \/ cl.v.post # <<>> THEN "X" ELSE "T"
    ELSE IF cl.op \notin {"==", "!=", "<=", ">=", "<", ">", "~="} THEN "F"
    ELSE IF cl.v.loc # <<>> /\ cl.op \notin {"==", "!="} THEN "F"
    ELSE IF cl.op = "~=" /\ Len(cl.v.r) < 2 THEN "F"
    ELSE "T"

AllowedAll(cls) == LET a == {Allowed(cls[i]) : i \in 1..Len(cls)}
                   IN IF "F" \in a THEN "F" ELSE IF "X" \in a THEN "X" ELSE "T"

Fits(got, want) == want = "X" \/ got = (want = "T")

\* ---------------------------------------------------------------- judging posy
\* kind "spec":  posy read the specifier set `cls` and tested each of `cands`
\* kind "cmp":   posy compared a with b (cmp in -1..1, given as 0..2) and tested a = b
\* kind "text":  posy was given a text; `allowed` says whether it is a specifier at all
\* kind "solve": posy resolved a brief needing `cls` of a project whose only release is c
Verdict440(x) ==
    CASE x.kind = "spec" ->
           LET al == AllowedAll(x.cls)
               want == [i \in 1..Len(x.cands) |-> AcceptsAll(x.cls, x.cands[i])]
           IN IF x.status = "err" THEN [ok |-> al # "T", want |-> <<"accepted specifier", al>>]
              ELSE IF x.status # "ok" THEN [ok |-> FALSE, want |-> <<"an answer">>]
              ELSE IF al = "F" THEN [ok |-> FALSE, want |-> <<"refused specifier">>]
              ELSE [ok |-> /\ Len(x.got) = Len(x.cands)
                           /\ \A i \in 1..Len(x.cands) : Fits(x.got[i], want[i]),
                    want |-> {<<i, want[i]>> : i \in {j \in 1..Len(x.cands) : j > Len(x.got) \/ ~Fits(x.got[j], want[j])}}]
      [] x.kind = "cmp" ->
           LET w == Cmp(x.a, x.b) + 1
           IN [ok |-> x.status = "ok" /\ x.cmp = w /\ x.eq = (w = 1), want |-> <<"cmp", w>>]
      [] x.kind = "text" ->
           [ok |-> (x.status = "ok") = x.allowed /\ x.status \in {"ok", "err"}, want |-> <<"allowed", x.allowed>>]
      [] x.kind = "solve" ->
           LET w == IF AllowedAll(x.cls) = "F" THEN "F" ELSE AcceptsAll(x.cls, x.c)
           IN [ok |-> x.status \in {"ok", "err"} /\ Fits(x.status = "ok", w), want |-> <<"resolves", w>>]
=============================================================================
