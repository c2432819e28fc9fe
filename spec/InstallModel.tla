----------------------------- MODULE InstallModel -----------------------------
(* posy's way of installing, step by step - pick the Python, then for each package pick a file, take it from the
   environments or the kept files or download it, unpack it, compare what it needs - over an index that changes
   arbitrarily between operations.  Is whatever it answers what Install.tla says?  And do Install.tla's judgements
   have the guarantees in them?                                                                               *)
EXTENDS Install, Json, IOUtils
CONSTANTS MaxPins, Forgets, NoHash
VARIABLES st, judged, okay
vars == <<st, judged, okay>>
F == ndJsonDeserialize(IOEnv.FILES)[1].files
Plats == ndJsonDeserialize(IOEnv.FILES)[1].plats
Metas == ndJsonDeserialize(IOEnv.FILES)[1].metas
N == Len(F)
\* tables, to be quicker
AllMetas == {F[h].meta : h \in 1..N} \union Elems(Metas)
Pys == {h \in 1..N : F[h].k = "pybi"}
PyTab == [n \in {F[h].name : h \in Pys} |-> [p \in Elems(Plats) |-> PybiRank(p, n)]]
WhTab == [n \in {F[h].name : h \in {h \in 1..N : F[h].k = "wheel"}} |-> [p \in Elems(Plats) |-> [t \in {F[h].templates : h \in Pys} |-> FileRank(p, t, n)]]]
MeanTab == [m \in AllMetas |-> Meaning(m)]
OrderTab == [m \in AllMetas |-> InOrder1(m)]
TabPython(plat, name) == PyTab[name][plat]
TabWheel(plat, templates, name) == WhTab[name][plat][templates]
TabMeans(m) == MeanTab[m]
TabOrder(m) == OrderTab[m]

\* for each file: absent; right; gone; without a hash; with the bytes, or the hash, of another file of that name
Ways(f) == {<<>>} \union {<<[f |-> f, h |-> f, got |-> f]>>, <<[f |-> f, h |-> f, got |-> 0]>>} \union (IF NoHash THEN {<<[f |-> f, h |-> 0, got |-> f]>>} ELSE {})
           \union {<<[f |-> f, h |-> f, got |-> g]>> : g \in {g \in 1..N : g # f /\ F[g].name = F[f].name}}
           \union {<<[f |-> f, h |-> g, got |-> f]>> : g \in {g \in 1..N : g # f /\ F[g].name = F[f].name}}
RECURSIVE Indexes(_)
Indexes(n) == IF n = 0 THEN {<<>>} ELSE {a \o b : a \in Indexes(n - 1), b \in Ways(n)}
SeqOf(S) == LET RECURSIVE G(_) G(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o G(T \ {x}) IN G(S)
Of(pkg) == {h \in 1..N : F[h].pkg = pkg}
Pins == {[pkg |-> F[N].pkg, v |-> F[N].v, hashes |-> SeqOf(hs), meta |-> Metas[m]] : hs \in SUBSET Of(F[N].pkg), m \in 1..Len(Metas)}

\* one file: [ok, s, gets]
Use(s, e, i) ==
    IF e.h \in s.forest THEN [ok |-> TRUE, s |-> s, gets |-> {}]
    ELSE IF e.h \in s.cached THEN [ok |-> F[e.h].good, s |-> IF F[e.h].good THEN [s EXCEPT !.forest = @ \union {e.h}] ELSE s, gets |-> {}]
    ELSE IF e.got # e.h THEN [ok |-> FALSE, s |-> s, gets |-> {i}]
    ELSE [ok |-> F[e.h].good, s |-> [s EXCEPT !.cached = @ \union {e.h}, !.forest = IF F[e.h].good THEN @ \union {e.h} ELSE @], gets |-> {i}]
Fail(s, gets) == [status |-> "err", usedpy |-> 0, used |-> <<>>, gets |-> gets, s |-> s]
\* what it may answer to op
RECURSIVE Packages(_, _, _, _, _, _)
Packages(s, op, ipy, plat, used, gets) ==
    LET k == Len(used) + 1 IN
    IF k > Len(op.pins) THEN {[status |-> "ok", usedpy |-> op.index[ipy].h, used |-> used, gets |-> gets, s |-> s]}
    ELSE LET c == Choices(F, op, F[op.index[ipy].h].templates, plat, op.pins[k]) IN
         IF c = {} THEN {Fail(s, gets)}
         ELSE UNION {LET r == Use(s, op.index[i], i) h == op.index[i].h IN
                     IF ~r.ok \/ Means(F[h].meta) # Means(op.pins[k].meta) THEN {Fail(r.s, gets \union r.gets)} ELSE Packages(r.s, op, ipy, plat, Append(used, h), gets \union r.gets) : i \in c}
Answers(s, op) ==
    LET p == Pythons(F, op) IN
    IF p[2] = {} THEN {Fail(s, {})}
    ELSE UNION {LET r == Use(s, op.index[i], i) IN IF ~r.ok THEN {Fail(r.s, r.gets)} ELSE Packages(r.s, op, i, op.plats[p[1]], <<>>, r.gets) : i \in p[2]}

Safe(op) == op.status = "ok" => /\ op.usedpy \in Elems(op.py.hashes) /\ F[op.usedpy].k = "pybi" /\ F[op.usedpy].good
                                /\ Len(op.used) = Len(op.pins)
                                /\ \A k \in 1..Len(op.used) : LET f == F[op.used[k]] IN
                                     /\ op.used[k] \in Elems(op.pins[k].hashes) /\ f.good /\ f.pkg = op.pins[k].pkg /\ f.v = op.pins[k].v /\ Elems(Means(f.meta).reqs) = Elems(Means(op.pins[k].meta).reqs)
                                     \* no source while a wheel fits
                                     /\ f.k = "sdist" => \A i \in 1..Len(op.index) : LET e == op.index[i] IN F[e.f].k = "wheel" /\ e.h \in Elems(op.pins[k].hashes) => WheelFits(op.plats[1], F[op.usedpy].templates, F[e.f].name) = <<>>
Init == st = [cached |-> {}, forest |-> {}] /\ judged = Empty /\ okay = TRUE
Next == \E ix \in Indexes(N), wipe \in (IF Forgets THEN {{}, {"forest"}, {"cache"}} ELSE {{}}) :
        \E n \in 0..MaxPins : \E pins \in [1..n -> Pins] :
        LET op == [index |-> ix, plats |-> Plats, py |-> [pkg |-> F[1].pkg, v |-> F[1].v, hashes |-> SeqOf(Pys)], pins |-> pins, wipe |-> SeqOf(wipe), tries |-> FALSE]
            s == [cached |-> IF "cache" \in wipe THEN {} ELSE st.cached, forest |-> IF "forest" \in wipe THEN {} ELSE st.forest]
        IN \E a \in Answers(s, op) :
           LET o == op @@ [status |-> a.status, usedpy |-> a.usedpy, used |-> a.used, gets |-> SeqOf(a.gets)]
               j == Judge1(F, judged, o)
           IN st' = a.s /\ judged' = j.s /\ okay' = (j.why = "" /\ Safe(o))
Fine == okay
\* what the judge believes
Believes == judged.cached \subseteq st.cached /\ judged.forest \subseteq st.forest /\ (st.cached \union st.forest) \subseteq judged.maybe
=============================================================================
