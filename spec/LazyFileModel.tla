----------------------------- MODULE LazyFileModel -----------------------------
(* How the gaps between loaded parts are filled: every read of something missing asks for a
   window of Window bytes, moved so that it overlaps with nothing. Checked for every file
   length, seek and read up to a bound: each step is one that LazyFile.tla allows, nothing is
   asked for twice, and a read always makes progress. With Record, histories are printed.   *)
EXTENDS LazyFile, Json
CONSTANTS Lengths, Window, Reads, Steps_, Record
VARIABLES st, hist, fine

Clamp(x, a, b) == Max(a, Min(x, b))
Sees(s, x) == {j \in s.loaded : j[1] <= x /\ x < j[2]}
Gap(s, x) == [from |-> LET B == {j[2] : j \in {j \in s.loaded : j[2] <= x}} IN IF B = {} THEN 0 ELSE CHOOSE m \in B : \A b \in B : b <= m,
              to |-> LET A == {j[1] : j \in {j \in s.loaded : j[1] > x}} IN IF A = {} THEN s.len ELSE CHOOSE m \in A : \A a \in A : m <= a]
Ask(s) == LET g == Gap(s, s.pos)
              a == IF g.to - s.pos < Window THEN Max(0, g.to - Window) ELSE s.pos
          IN [a |-> Clamp(a, g.from, g.to), b |-> Clamp(a + Window, g.from, g.to) - 1]
Full(q) == [a |-> q.a, b |-> q.b, ans |-> "ok", len |-> q.b - q.a + 1]
\* one call of read: [reqs, len]
ReadOnce(s, n) ==
    IF Min(n, Left(s)) = 0 THEN [reqs |-> <<>>, len |-> 0]
    ELSE LET q == Full(Ask(s))
             t == IF Sees(s, s.pos) = {} THEN Answered(s, q) ELSE s
             j == CHOOSE j \in Sees(t, s.pos) : TRUE
         IN [reqs |-> IF Sees(s, s.pos) = {} THEN <<q>> ELSE <<>>, len |-> Min(n, j[2] - s.pos)]

Init == st \in {Opened(l, FALSE) : l \in Lengths} /\ hist = <<>> /\ fine = TRUE
Say(op) == hist' = Append(hist, IF Record THEN op ELSE 0)
Seeks == {[r |-> "start", n |-> n] : n \in 0..st.len + 1} \union {[r |-> "end", n |-> n] : n \in -(st.len + 1)..1} \union {[r |-> "cur", n |-> n] : n \in -2..2}
DoSeek == \E op \in Seeks : st.pos # Unknown /\
             LET t == Target(st, op) r == Step(st, [op |-> op, reqs |-> <<>>, res |-> [got |-> IF t < 0 THEN "err" ELSE "ok", pos |-> t]])
             IN /\ fine' = r.ok /\ Say(op)
                /\ st' = IF t < 0 THEN st ELSE r.st
DoRead == \E n \in Reads :
             LET x == ReadOnce(st, n)
                 r == Step(st, [op |-> [r |-> "read", n |-> n], reqs |-> x.reqs, res |-> [got |-> "ok", len |-> x.len, ats |-> <<st.pos>>]])
             IN fine' = r.ok /\ Say([r |-> "read", n |-> n]) /\ st' = IF r.ok THEN r.st ELSE st
Next == Len(hist) < Steps_ /\ (DoSeek \/ DoRead)
Fine == fine
Bounded == \A i, j \in st.loaded : i = j \/ ~Overlap(i, j)
View == <<st, fine, IF Record THEN hist ELSE <<Len(hist)>>>>
Tell == Len(hist) < Steps_ \/ PrintT(<<"TRACE", ToJson([len |-> st.len, ops |-> hist]), "END">>)
=============================================================================
