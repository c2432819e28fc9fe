------------------------------ MODULE Platform ------------------------------
(* Platform tags: what a platform implies, and which of two builds is the better one.
   Tags are texts (sequences of character codes).  The definition is by reading tags, not by
   listing what a platform expands to: a tag is taken apart into kind, level and
   architecture, and compared with the platform's.                                      *)
EXTENDS Names

Pfx(s, t) == Here(s, 1, t)
From(s, i) == SubSeq(s, i, Len(s))
ManyL == <<109,97,110,121,108,105,110,117,120>>     \* manylinux
MuslL == <<109,117,115,108,108,105,110,117,120>>    \* musllinux
MacX == <<109,97,99,111,115,120>>                   \* macosx
X86 == <<120,56,54,95,54,52>>  Arm == <<97,114,109,54,52>>
Uni2 == <<117,110,105,118,101,114,115,97,108,50>>  Intel == <<105,110,116,101,108>>  Fat64 == <<102,97,116,54,52>>
Fat3 == <<102,97,116,51>>  Uni == <<117,110,105,118,101,114,115,97,108>>

\* the legacy names of three manylinux levels
Legacy == << <<<<50,48,49,52>>, 17>>, <<<<50,48,49,48>>, 12>>, <<<<49>>, 5>> >>

Other(t) == [kind |-> "other", major |-> 0, minor |-> 0, alias |-> 0, arch |-> t]
\* <prefix>_<major>_<minor>_<arch> : [major, minor, arch] or <<>>
Level(t, n) ==
    LET a == n + 1  b == DigitsEnd(t, a + 1)  c == DigitsEnd(t, b + 1)
    IN IF At(t, a) = 95 /\ b > a + 1 /\ At(t, b) = 95 /\ c > b + 1 /\ At(t, c) = 95 /\ \A i \in (c + 1)..Len(t) : TagC(t[i])
       THEN <<Num(t, a + 1, b), Num(t, b + 1, c), From(t, c + 1)>> ELSE <<>>
Plat(t) ==
    LET lev == Level(t, IF Pfx(t, MacX) THEN 6 ELSE 9)
        old == {k \in 1..Len(Legacy) : LET l == ManyL \o Legacy[k][1] \o <<95>> IN Pfx(t, l)}
        k == CHOOSE k \in old : TRUE
    IN IF Pfx(t, ManyL) /\ old # {} THEN [kind |-> "many", major |-> 2, minor |-> Legacy[k][2], alias |-> 1, arch |-> From(t, Len(ManyL) + Len(Legacy[k][1]) + 2)]
       ELSE IF (Pfx(t, ManyL) \/ Pfx(t, MuslL)) /\ lev # <<>> THEN [kind |-> IF Pfx(t, ManyL) THEN "many" ELSE "musl", major |-> lev[1], minor |-> lev[2], alias |-> 0, arch |-> lev[3]]
       ELSE IF Pfx(t, MacX) /\ lev # <<>> /\ lev[1] >= 10 THEN [kind |-> "mac", major |-> lev[1], minor |-> lev[2], alias |-> 0, arch |-> lev[3]]
       ELSE Other(t)

\* builds for several processors that run on this one, the most specific first
MacArchs(a) == CASE a = X86 -> <<X86, Uni2, Intel, Fat64, Fat3, Uni>> [] a = Arm -> <<Arm, Uni2>> [] OTHER -> <<a>>

\* Does a machine of platform c (the core tag) run builds for t?  <<>>: no.  Otherwise a
\* rank: the smaller (lexicographically), the more specific.
Rank(c, t) ==
    IF c.kind # t.kind THEN <<>>
    ELSE CASE c.kind = "other" -> IF c.arch = t.arch THEN <<0, 0, 0>> ELSE <<>>
           [] c.kind \in {"many", "musl"} ->
                IF c.major = t.major /\ t.minor <= c.minor /\ t.arch = c.arch THEN <<0, c.minor - t.minor, t.alias>> ELSE <<>>
           [] c.kind = "mac" ->
                LET as == MacArchs(c.arch) fits == {k \in 1..Len(as) : as[k] = t.arch}
                    older == IF t.major >= 11 THEN t.minor = 0 /\ c.major >= t.major
                             ELSE t.minor <= (IF c.major = 10 THEN c.minor ELSE 15)
                IN IF fits = {} \/ ~older THEN <<>>
                   ELSE <<c.major - t.major, IF t.major = 10 THEN 100 - t.minor ELSE 0, CHOOSE k \in fits : TRUE>>
\* written without leading zeros, as tags are
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Write(p) == CASE p.kind = "other" -> p.arch
              [] p.alias = 1 -> ManyL \o Legacy[CHOOSE k \in 1..3 : Legacy[k][2] = p.minor][1] \o <<95>> \o p.arch
              [] OTHER -> (CASE p.kind = "many" -> ManyL [] p.kind = "musl" -> MuslL [] OTHER -> MacX) \o <<95>> \o Digits(p.major) \o <<95>> \o Digits(p.minor) \o <<95>> \o p.arch
PlatRank(core, tag) == LET t == Plat(tag) IN IF Write(t) # tag THEN <<>> ELSE Rank(Plat(core), t)

\* ---------------------------------------------------------------- wheels
\* templates: the wheel tags that a Python build declares, in its order
PlatSfx == <<45,80,76,65,84,70,79,82,77>>
WheelRank(core, templates, tag) ==
    LET r(k) == LET t == templates[k] p == SubSeq(t, 1, Len(t) - 8)
                IN IF EndsWith(t, PlatSfx) THEN IF Pfx(tag, p) /\ Len(tag) > Len(p) THEN PlatRank(core, From(tag, Len(p) + 1)) ELSE <<>>
                   ELSE IF t = tag THEN <<0, 0, 0>> ELSE <<>>
        fits == {k \in 1..Len(templates) : r(k) # <<>>}
    IN IF fits = {} THEN <<>> ELSE LET k == CHOOSE k \in fits : \A j \in fits : k <= j IN <<k>> \o r(k)
LessR(a, b) == CmpSeq(a, b) < 0
Best(ranks) == LET ok == {r \in ranks : r # <<>>} IN IF ok = {} THEN <<>> ELSE CHOOSE r \in ok : \A q \in ok : ~LessR(q, r)
\* all the tags of a wheel file name: every combination of its parts
TagsOf(f) == {f.tags[1][i] \o <<45>> \o f.tags[2][j] \o <<45>> \o f.tags[3][k] : i \in 1..Len(f.tags[1]), j \in 1..Len(f.tags[2]), k \in 1..Len(f.tags[3])}
FileRank(core, templates, name) == Best({WheelRank(core, templates, t) : t \in TagsOf(ParseFile(name)[1])})
\* a Python build for macOS' universal2 is one build for each of the two processors
PybiTags(t) == LET p == Plat(t) IN IF p.kind = "mac" /\ p.arch = Uni2 THEN {Write([p EXCEPT !.arch = X86]), Write([p EXCEPT !.arch = Arm])} ELSE {t}
PybiRank(core, name) == LET f == ParseFile(name)[1] IN Best({PlatRank(core, t) : t \in UNION {PybiTags(f.tags[1][k]) : k \in 1..Len(f.tags[1])}})

\* ---------------------------------------------------------------- judging posy
\* scores: <<>> unusable, else <<score>>, the larger the better
Agree(ranks, scores) ==
    LET I == 1..Len(ranks)
    IN {i \in I : (ranks[i] = <<>>) # (scores[i] = <<>>)}
       \cup {i \in I : ranks[i] # <<>> /\ scores[i] # <<>> /\ \E j \in I : ranks[j] # <<>> /\ scores[j] # <<>>
                       /\ (LessR(ranks[i], ranks[j]) # (scores[i][1] > scores[j][1]) \/ (ranks[i] = ranks[j]) # (scores[i] = scores[j]))}
VerdictPlatform(x) ==
    IF x.status # "ok" THEN [ok |-> FALSE, want |-> <<"an answer">>]
    ELSE CASE x.kind = "platform" ->
            LET ranks == [i \in 1..Len(x.ask) |-> PlatRank(x.core, x.ask[i])] bad == Agree(ranks, x.scores)
                \* everything it says it supports
                extra == {i \in 1..Len(x.tags) : PlatRank(x.core, x.tags[i]) = <<>>}
            IN [ok |-> bad = {} /\ extra = {}, want |-> <<{<<x.ask[i], ranks[i]>> : i \in bad}, {x.tags[i] : i \in extra}>>]
      [] x.kind = "wheels" ->
            LET ranks == [i \in 1..Len(x.names) |-> FileRank(x.core, x.templates, x.names[i])] bad == Agree(ranks, x.scores)
            IN [ok |-> bad = {}, want |-> {<<x.names[i], ranks[i]>> : i \in bad}]
      \* which of the files was installed (0: none, refused)
      [] x.kind = "wheelpick" ->
            LET ranks == [i \in 1..Len(x.names) |-> FileRank(x.core, x.templates, x.names[i])]
                best == Best({ranks[i] : i \in 1..Len(ranks)})
            IN [ok |-> IF best = <<>> THEN x.got = 0 ELSE x.got # 0 /\ ranks[x.got] = best, want |-> <<"one of", {i \in 1..Len(ranks) : best # <<>> /\ ranks[i] = best}>>]
      \* names: wheels that were built and kept; which of them is used (0: another one is built, named x.new)
      [] x.kind = "keptpick" ->
            LET ranks == [i \in 1..Len(x.names) |-> FileRank(x.core, x.templates, x.names[i])]
                best == Best({ranks[i] : i \in 1..Len(ranks)})
            IN [ok |-> IF best = <<>> THEN x.got = 0 /\ FileRank(x.core, x.templates, x.new) # <<>> ELSE x.got # 0 /\ ranks[x.got] = best,
                want |-> <<"one of", {i \in 1..Len(ranks) : best # <<>> /\ ranks[i] = best}>>]
      \* cores: several platforms, the first that any file fits counts
      [] x.kind = "pybipick" ->
            LET rk(p) == [i \in 1..Len(x.names) |-> PybiRank(x.cores[p], x.names[i])]
                b(p) == Best({rk(p)[i] : i \in 1..Len(x.names)})
                ps == {p \in 1..Len(x.cores) : b(p) # <<>>}
                p == CHOOSE p \in ps : \A q \in ps : p <= q
                want == IF ps = {} THEN {} ELSE {i \in 1..Len(x.names) : rk(p)[i] = b(p)}
            IN [ok |-> IF want = {} THEN x.got = 0 ELSE x.got \in want, want |-> <<"one of", want>>]
=============================================================================
