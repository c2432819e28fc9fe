-------------------------------- MODULE Url --------------------------------
(* URLs: taking them apart, resolving a reference against a base (RFC 3986, with the
   normalisations that the URL standard prescribes for http), and writing them.          *)
EXTENDS Names

Idx(s, cs, from) == LET I == {i \in from..Len(s) : s[i] \in cs} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
\* blanks around it and line breaks within it do not count
RECURSIVE StripL(_), StripR(_), Drop(_, _)
StripL(s) == IF s # <<>> /\ s[1] <= 32 THEN StripL(Tail(s)) ELSE s
StripR(s) == IF s # <<>> /\ s[Len(s)] <= 32 THEN StripR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Drop(s, cs) == IF s = <<>> THEN <<>> ELSE IF Head(s) \in cs THEN Drop(Tail(s), cs) ELSE <<Head(s)>> \o Drop(Tail(s), cs)
Clean(s) == Drop(StripR(StripL(s)), {9, 10, 13})

HexD(n) == IF n < 10 THEN 48 + n ELSE 55 + n
RECURSIVE Enc(_, _)
Enc(s, cs) == IF s = <<>> THEN <<>> ELSE (IF Head(s) \in cs THEN <<37, HexD(Head(s) \div 16), HexD(Head(s) % 16)>> ELSE <<Head(s)>>) \o Enc(Tail(s), cs)
PathEnc(s) == Enc(s, {32, 34, 60, 62, 96, 123, 125})
QueryEnc(s) == Enc(s, {32, 34, 39, 60, 62})
FragEnc(s) == Enc(s, {32, 34, 60, 62, 96})

\* [scheme, auth, path, q, f]: scheme and auth <<>> if there are none; q and f <<>> or <<text>>
Pieces(ref0) ==
    LET ref == Clean(ref0)
        hash == Idx(ref, {35}, 1)
        body == IF hash = 0 THEN ref ELSE SubSeq(ref, 1, hash - 1)
        frag == IF hash = 0 THEN <<>> ELSE <<SubSeq(ref, hash + 1, Len(ref))>>
        qm == Idx(body, {63}, 1)
        hier == IF qm = 0 THEN body ELSE SubSeq(body, 1, qm - 1)
        query == IF qm = 0 THEN <<>> ELSE <<SubSeq(body, qm + 1, Len(body))>>
        colon == Idx(hier, {58, 47}, 1)
        hasS == colon > 1 /\ hier[colon] = 58 /\ ~IsDigit(hier[1]) /\ \A i \in 1..(colon - 1) : IsAlnum(hier[i]) \/ hier[i] \in {43, 45, 46}
        scheme == IF hasS THEN Lower(SubSeq(hier, 1, colon - 1)) ELSE <<>>
        rest == IF hasS THEN SubSeq(hier, colon + 1, Len(hier)) ELSE hier
        hasA == Len(rest) >= 2 /\ rest[1] = 47 /\ rest[2] = 47
        sl == Idx(rest, {47}, 3)
        auth == IF ~hasA THEN <<>> ELSE Lower(SubSeq(rest, 3, IF sl = 0 THEN Len(rest) ELSE sl - 1))
        path == IF ~hasA THEN rest ELSE IF sl = 0 THEN <<>> ELSE SubSeq(rest, sl, Len(rest))
    IN [scheme |-> scheme, auth |-> auth, path |-> path, q |-> query, f |-> frag]

\* the segments of a path, without . and ..  (a trailing one leaves an empty last segment)
RECURSIVE Undot(_, _, _)
Undot(segs, k, acc) ==
    IF k > Len(segs) THEN acc
    ELSE LET s == segs[k] last == k = Len(segs)
             up == IF acc = <<>> THEN <<>> ELSE SubSeq(acc, 1, Len(acc) - 1)
         IN IF s = <<46>> THEN Undot(segs, k + 1, IF last THEN Append(acc, <<>>) ELSE acc)
            ELSE IF s = <<46, 46>> THEN Undot(segs, k + 1, IF last THEN Append(up, <<>>) ELSE up)
            ELSE Undot(segs, k + 1, Append(acc, s))
RECURSIVE JoinSegs(_)
JoinSegs(segs) == IF segs = <<>> THEN <<>> ELSE <<47>> \o Head(segs) \o JoinSegs(Tail(segs))
\* path: absolute
NormPath(path) == LET u == Undot(Tail(Split(path, 47)), 1, <<>>) IN PathEnc(JoinSegs(IF u = <<>> THEN << <<>> >> ELSE u))

Web == {<<104,116,116,112>>, <<104,116,116,112,115>>}
UpTo(path) == LET I == {i \in 1..Len(path) : path[i] = 47} IN SubSeq(path, 1, CHOOSE i \in I : \A j \in I : j <= i)
MapQ(q) == IF q = <<>> THEN <<>> ELSE <<QueryEnc(q[1])>>
MapF(f) == IF f = <<>> THEN <<>> ELSE <<FragEnc(f[1])>>
\* base: pieces of an absolute http(s) URL.  <<>> if the result is not such a URL.
Resolve(base, ref) ==
    LET p == Pieces(ref)
        abs(x) == IF Len(x) > 0 /\ x[1] = 47 THEN x ELSE <<47>> \o x
        q == MapQ(p.q)
    IN IF p.scheme # <<>> /\ (p.scheme \notin Web \/ p.auth = <<>>) THEN <<>>
       ELSE IF p.scheme # <<>> THEN <<[scheme |-> p.scheme, auth |-> p.auth, path |-> NormPath(abs(p.path)), q |-> q, f |-> MapF(p.f)]>>
       ELSE IF p.auth # <<>> THEN <<[scheme |-> base.scheme, auth |-> p.auth, path |-> NormPath(abs(p.path)), q |-> q, f |-> MapF(p.f)]>>
       ELSE IF p.path = <<>> THEN <<[base EXCEPT !.q = IF p.q = <<>> THEN @ ELSE q, !.f = MapF(p.f)]>>
       ELSE IF p.path[1] = 47 THEN <<[base EXCEPT !.path = NormPath(p.path), !.q = q, !.f = MapF(p.f)]>>
       ELSE <<[base EXCEPT !.path = NormPath(UpTo(base.path) \o p.path), !.q = q, !.f = MapF(p.f)]>>
Absolute(text) == Resolve([scheme |-> <<>>, auth |-> <<>>, path |-> <<47>>, q |-> <<>>, f |-> <<>>], text)[1]
ToText(u) == u.scheme \o <<58,47,47>> \o u.auth \o u.path \o (IF u.q = <<>> THEN <<>> ELSE <<63>> \o u.q[1]) \o (IF u.f = <<>> THEN <<>> ELSE <<35>> \o u.f[1])

HexV(c) == IF IsDigit(c) THEN c - 48 ELSE LowerC(c) - 87
RECURSIVE Dec(_, _)
Dec(s, i) == IF i > Len(s) THEN <<>>
             ELSE IF s[i] = 37 /\ i + 2 <= Len(s) /\ IsHex(s[i + 1]) /\ IsHex(s[i + 2]) THEN <<16 * HexV(s[i + 1]) + HexV(s[i + 2])>> \o Dec(s, i + 3)
             ELSE <<s[i]>> \o Dec(s, i + 1)
\* the file that a URL names
LastSegment(u) == LET ss == Split(u.path, 47) IN Dec(ss[Len(ss)], 1)
=============================================================================
