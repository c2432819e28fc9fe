------------------------------- MODULE Install -------------------------------
(* Building environments from blueprints, one after the other, over an index that changes and files that come
   and go.

   files   all the files there ever were; files[h] is known by its number h, its "hash":
             k       "pybi", "wheel" or "sdist"
             name    its file name; pkg, v: the package and version this says
             good    FALSE if it is not what its name says (another package or version inside), or broken
             meta    [reqs, rp, extras] as text: what it says it needs (an sdist: the wheel built from it)
             templates   the wheel tags that a Python build declares
   An operation op has
             index   what's on the index: entries [f, h, got]: a file of the name of file f, of which the index says that
                     its hash is h (0: doesn't say), and that is really file got when downloaded (0: isn't there)
             plats   platforms, in order of preference
             py      the Python: [pkg, v, hashes]
             pins    the packages: [pkg, v, hashes, meta]
             wipe    what was removed before: "forest" (the environments) and/or "cache"
             ok, usedpy, used     the answer: whether it succeeded; with which files
             gets    the entries whose files it asked for
             tries   asked for files of Pythons by itself (a build may look for one)                          *)
EXTENDS Platform, ReqText, FiniteSets

Elems(q) == {q[k] : k \in 1..Len(q)}
\* (by these names so that the model can replace them by tables)
PythonFits(plat, name) == PybiRank(plat, name)
WheelFits(plat, templates, name) == FileRank(plat, templates, name)

\* ---------------------------------------------------------------- metadata
Meaning(m) == [reqs |-> [k \in 1..Len(m.reqs) |-> ReqMeaning(ParseReq(m.reqs[k], TRUE)[1])], rp |-> SpecsMeaning(ParseSpecs(m.rp)[1]), extras |-> {Norm(m.extras[k]) : k \in 1..Len(m.extras)}]
Means(m) == Meaning(m)
\* the same, whatever the spelling; the extras of requirements in order
InOrder1(m) == [k \in 1..Len(m.reqs) |-> LET x == ParseReq(m.reqs[k], TRUE)[1].extras IN [j \in 1..Len(x) |-> Norm(x[j])]]
InOrder(m) == InOrder1(m)
Same(a, b) == Means(a) = Means(b) /\ InOrder(a) = InOrder(b)
\* certainly not the same (what differs just in the order may pass or not)
Differ(a, b) == LET x == Means(a) y == Means(b) IN Elems(x.reqs) # Elems(y.reqs) \/ Elems(x.rp) # Elems(y.rp) \/ x.extras # y.extras

\* ---------------------------------------------------------------- which file
\* the entries of a release that a pin allows
Listed(F, op, pin, k) == {i \in 1..Len(op.index) : LET e == op.index[i] IN F[e.f].k = k /\ F[e.f].pkg = pin.pkg /\ F[e.f].v = pin.v /\ e.h # 0 /\ e.h \in Elems(pin.hashes)}
\* <<platform, entries>>: the Pythons that fit best; <<0, {}>> if there's none
Pythons(F, op) ==
    LET es == Listed(F, op, op.py, "pybi")
        rank(p, i) == PythonFits(op.plats[p], F[op.index[i].f].name)
        best(p) == Best({rank(p, i) : i \in es})
        ps == {p \in 1..Len(op.plats) : best(p) # <<>>}
    IN IF ps = {} THEN <<0, {}>> ELSE LET p == CHOOSE p \in ps : \A q \in ps : p <= q IN <<p, {i \in es : rank(p, i) = best(p)}>>
\* the entries that may be used for a pin; none: it can't be installed
Choices(F, op, templates, plat, pin) ==
    LET es == Listed(F, op, pin, "wheel")
        rank == [i \in es |-> WheelFits(plat, templates, F[op.index[i].f].name)]
        best == Best({rank[i] : i \in es})
    IN IF best # <<>> THEN {i \in es : rank[i] = best} ELSE Listed(F, op, pin, "sdist")

\* ---------------------------------------------------------------- history
\* s.sure   the files that needn't be downloaded for sure; s.cached: those whose bytes are kept; s.maybe: may be there
Empty == [cached |-> {}, forest |-> {}, maybe |-> {}]
Wiped(s, wipe) == [cached |-> IF "cache" \in wipe THEN {} ELSE s.cached, forest |-> IF "forest" \in wipe THEN {} ELSE s.forest,
                   maybe |-> IF {"cache", "forest"} \subseteq wipe THEN {} ELSE s.maybe]
Sure(s) == s.cached \union s.forest
\* a reason why entry e can't do
Right(F, e) == LET f == F[e.f] x == F[e.h] IN x.good /\ x.k = f.k /\ x.pkg = f.pkg /\ x.v = f.v
Bad(F, s, e) == (e.h \notin Sure(s) /\ e.got # e.h) \/ ~Right(F, e)
CantGet(F, s, e) == (e.h \notin s.maybe /\ e.got # e.h) \/ ~Right(F, e)
Judge1(F, s0, op) ==
    LET s == Wiped(s0, Elems(op.wipe))
        py == Pythons(F, op)
        E(i) == op.index[i]
        ch(i, k) == Choices(F, op, F[E(i).h].templates, op.plats[py[1]], op.pins[k])
        all == py[2] \union UNION {ch(i, k) : i \in py[2], k \in 1..Len(op.pins)}
        gets == Elems(op.gets)
        got == {E(i).h : i \in gets}
        \* when it succeeds
        ipy == {i \in py[2] : E(i).h = op.usedpy}
        iw == [k \in 1..Len(op.pins) |-> {i \in UNION {ch(j, k) : j \in ipy} : k <= Len(op.used) /\ E(i).h = op.used[k]}]
        chosen == {op.usedpy} \union Elems(op.used)
        next == [cached |-> s.cached \union {E(i).h : i \in {i \in gets : E(i).got = E(i).h}}, forest |-> s.forest, maybe |-> s.maybe \union got]
        why == IF op.status = "bad" THEN "crash"
               ELSE IF op.status = "err" THEN
                    IF \/ py[2] = {} \/ \E i \in py[2] : Bad(F, s, E(i))
                       \/ \E i \in py[2] : \E k \in 1..Len(op.pins) : LET c == ch(i, k) IN c = {} \/ \E j \in c : Bad(F, s, E(j)) \/ ~Same(F[E(j).h].meta, op.pins[k].meta)
                    THEN "" ELSE "no reason to fail"
               ELSE IF ipy = {} THEN "that Python isn't the one"
               ELSE IF Len(op.used) # Len(op.pins) THEN "not as many packages as are pinned"
               ELSE IF \E k \in 1..Len(op.pins) : iw[k] = {} THEN "that file isn't the one"
               ELSE IF (\A i \in ipy : CantGet(F, s, E(i))) \/ \E k \in 1..Len(op.pins) : \A i \in iw[k] : CantGet(F, s, E(i)) THEN "how did it get that file?"
               ELSE IF \E k \in 1..Len(op.pins) : Differ(F[op.used[k]].meta, op.pins[k].meta) THEN "it doesn't need what the blueprint says"
               ELSE IF \E h \in chosen : h \notin s.maybe \union got THEN "it can't have that file"
               ELSE ""
        \* what it had no business downloading
        extra == {i \in gets : (E(i).h \in Sure(s) /\ F[E(i).h].k = F[E(i).f].k) \/ i \notin all} \ (IF op.tries THEN {i \in gets : F[E(i).f].k = "pybi"} ELSE {})
    IN [why |-> IF why # "" THEN why ELSE IF extra # {} THEN "it downloaded something it has no use for" ELSE "",
        want |-> <<py, [k \in 1..Len(op.pins) |-> {<<i, ch(i, k)>> : i \in py[2]}], extra>>,
        s |-> IF op.status = "ok" THEN [next EXCEPT !.forest = @ \union chosen, !.maybe = @ \union chosen] ELSE next]
RECURSIVE Run(_, _, _, _)
Run(F, s, ops, n) ==
    IF n > Len(ops) THEN [ok |-> TRUE, want |-> ""]
    ELSE LET r == Judge1(F, s, ops[n]) IN IF r.why # "" THEN [ok |-> FALSE, want |-> <<n, r.why, r.want>>] ELSE Run(F, r.s, ops, n + 1)
VerdictInstall(x) == Run(x.files, Empty, x.ops, 1)
=============================================================================
