------------------------------- MODULE Names -------------------------------
(* Package names (PEP 503) and artifact file names: the wheel, pybi and sdist naming
   conventions.  ParseFile(s) is <<>> if the name must be refused, and otherwise
   <<[kind, dist, v, build, bname, tags, sure]>>; `sure` tells whether the conventions
   clearly allow the name (if not, refusing it is fine too).                         *)
EXTENDS Text, Integers

EndsWith(s, t) == Len(s) >= Len(t) /\ \A i \in 1..Len(t) : s[Len(s) - Len(t) + i] = t[i]
Whl == <<46,119,104,108>>  PybiExt == <<46,112,121,98,105>>  Zip == <<46,122,105,112>>  TarGz == <<46,116,97,114,46,103,122>>

RECURSIVE SplitFrom(_, _, _, _, _)
SplitFrom(s, c, i, cur, acc) ==
    IF i > Len(s) THEN Append(acc, cur)
    ELSE IF s[i] = c THEN SplitFrom(s, c, i + 1, <<>>, Append(acc, cur))
    ELSE SplitFrom(s, c, i + 1, Append(cur, s[i]), acc)
Split(s, c) == SplitFrom(s, c, 1, <<>>, <<>>)

RECURSIVE NoZeros(_)
NoZeros(d) == IF Len(d) > 1 /\ d[1] = 48 THEN NoZeros(Tail(d)) ELSE d

TagC(c) == IsAlnum(c) \/ c = 95
PlainTag(t) == t # <<>> /\ \A i \in 1..Len(t) : TagC(t[i])
\* the numbers of a version that a machine word can hold: more than 9 digits may be refused
RECURSIVE LongRun(_, _, _)
LongRun(s, i, n) == IF n > 9 THEN TRUE ELSE IF i > Len(s) THEN FALSE ELSE LongRun(s, i + 1, IF IsDigit(s[i]) THEN n + 1 ELSE 0)

Binary(kind, stem, ntags) ==
    LET ps == Split(stem, 45)
        hasB == Len(ps) = 3 + ntags
        b == IF hasB THEN ps[3] ELSE <<>>
        d == DigitsEnd(b, 1)
        tags == [k \in 1..ntags |-> Split(ps[Len(ps) - ntags + k], 46)]
        v == ParseVersion(ps[2])
    IN IF Len(ps) \notin {2 + ntags, 3 + ntags} \/ (hasB /\ b = <<>>) THEN <<>>
       ELSE IF ~IsName(ps[1]) \/ v = <<>> THEN <<>>
       ELSE <<[kind |-> kind, dist |-> Norm(ps[1]), v |-> v[1],
               build |-> IF d = 1 THEN <<>> ELSE <<NoZeros(SubSeq(b, 1, d - 1))>>, bname |-> SubSeq(b, d, Len(b)),
               tags |-> tags,
               sure |-> /\ (hasB => d > 1 /\ d < 11 /\ \A i \in 1..Len(b) : TagC(b[i]) \/ b[i] = 46)
                        /\ \A k \in 1..ntags : \A j \in 1..Len(tags[k]) : PlainTag(tags[k][j])]>>

Sdist(stem, fmt) ==
    LET hs == {i \in 1..Len(stem) : stem[i] = 45}
        h == IF hs = {} THEN 0 ELSE CHOOSE i \in hs : \A j \in hs : j <= i
        dist == SubSeq(stem, 1, h - 1)
        v == ParseVersion(SubSeq(stem, h + 1, Len(stem)))
    IN IF h = 0 \/ ~IsName(dist) \/ v = <<>> THEN <<>>
       ELSE <<[kind |-> fmt, dist |-> Norm(dist), v |-> v[1], build |-> <<>>, bname |-> <<>>, tags |-> <<>>, sure |-> TRUE]>>

Stem(s, ext) == SubSeq(s, 1, Len(s) - Len(ext))
ParseFile(s) ==
    CASE EndsWith(s, Whl) -> Binary("wheel", Stem(s, Whl), 3)
      [] EndsWith(s, PybiExt) -> Binary("pybi", Stem(s, PybiExt), 1)
      [] EndsWith(s, Zip) -> Sdist(Stem(s, Zip), "zip")
      [] EndsWith(s, TarGz) -> Sdist(Stem(s, TarGz), "tar.gz")
      [] OTHER -> <<>>
PlainF(f) == [f EXCEPT !.sure = TRUE]
SameFile(f, g) == PlainF(f) = PlainF(g)

\* ---------------------------------------------------------------- judging posy
Sign(x) == x - 1   \* comparisons are recorded as 0, 1, 2
VerdictNames(x) ==
    IF x.status = "panic" THEN [ok |-> FALSE, want |-> <<"an answer">>]
    ELSE CASE x.kind = "name" ->
            IF ~IsName(x.s) THEN [ok |-> x.status = "err", want |-> <<"refused">>]
            ELSE [ok |-> x.status = "ok" /\ x.norm = Norm(x.s) /\ x.given = x.s, want |-> <<Norm(x.s)>>]
      [] x.kind = "pair" ->
            LET same == Norm(x.a) = Norm(x.b)
                c == CmpText(Norm(x.a), Norm(x.b))
            IN [ok |-> /\ x.eq = same /\ x.extraEq = same /\ x.set = (IF same THEN 1 ELSE 2)
                       /\ (same => x.hashEq /\ x.extraHashEq)
                       /\ (Sign(x.cmp) = 0) = same,
                want |-> <<"same", same>>]
      [] x.kind = "file" ->
            LET f == ParseFile(x.s) p == IF x.status = "ok" THEN ParseFile(x.printed) ELSE <<>>
            IN IF f = <<>> THEN [ok |-> x.status = "err", want |-> <<"refused">>]
               ELSE IF x.status = "err" THEN [ok |-> ~f[1].sure \/ LongRun(x.s, 1, 0), want |-> <<"accepted", f[1]>>]
               ELSE [ok |-> /\ x.eq
                            /\ x.fields.kind = f[1].kind /\ x.fields.dist = f[1].dist /\ ParseVersion(x.fields.v) = <<f[1].v>>
                            /\ x.fields.build = f[1].build /\ x.fields.bname = f[1].bname /\ x.fields.tags = f[1].tags
                            /\ p # <<>> /\ SameFile(p[1], f[1])
                            /\ (f[1].build = <<>> \/ SubSeq(x.s, 1, 1) # <<>>)
                            \* if the version and build number are in their usual spelling, the very same name
                            /\ (x.canon => x.printed = x.s),
                     want |-> f[1]]
      \* a matrix of comparisons between the files of one list
      [] x.kind = "order" ->
            LET n == Len(x.files)
                I == 1..n
                fs == [i \in I |-> PlainF(ParseFile(x.files[i])[1])]
                c == [i \in I |-> [j \in I |-> Sign(x.cmp[i][j])]]
                bad == {<<i, j>> \in I \X I : c[i][j] # -c[j][i] \/ (c[i][j] = 0) # (fs[i] = fs[j]) \/ x.eq[i][j] # (fs[i] = fs[j])
                                              \/ \E k \in I : c[i][j] < 0 /\ c[j][k] <= 0 /\ c[i][k] >= 0}
                \* files that differ only in their version are ordered by it
                badV == {<<i, j>> \in I \X I : fs[i].kind = fs[j].kind /\ fs[i].dist = fs[j].dist /\ Cmp(fs[i].v, fs[j].v) # 0
                                               /\ c[i][j] # Cmp(fs[i].v, fs[j].v)}
            IN [ok |-> bad = {} /\ badV = {}, want |-> <<"a total order, consistent with equality and versions", bad, badV>>]
=============================================================================
