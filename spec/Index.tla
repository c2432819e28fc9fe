------------------------------- MODULE Index -------------------------------
(* Package index pages (PEP 503, 592, 629): a page is a sequence of elements, in document
   order: [el |-> "meta", name, content], [el |-> "base", href], [el |-> "a", href, yanked, rp]
   where href, yanked and rp are <<>> (no such attribute) or <<text>>.                     *)
EXTENDS Url, Platform

\* the files of a page that is at `url`
RECURSIVE LinksFrom(_, _, _, _)
LinksFrom(els, k, base, based) ==
    IF k > Len(els) THEN <<>>
    ELSE LET e == els[k]
         IN IF e.el = "base" THEN
                LET r == IF e.href = <<>> \/ based THEN <<>> ELSE Resolve(base, e.href[1])
                IN LinksFrom(els, k + 1, IF r = <<>> THEN base ELSE r[1], based \/ e.href # <<>>)
            ELSE IF e.el # "a" \/ e.href = <<>> THEN LinksFrom(els, k + 1, base, based)
            ELSE LET r == Resolve(base, e.href[1])
                     f == IF r = <<>> THEN <<>> ELSE ParseFile(LastSegment(r[1]))
                     h == IF r[1].f = <<>> THEN <<>> ELSE ParseHash(r[1].f[1])
                 IN (IF f = <<>> THEN <<>> ELSE <<[f |-> f[1], url |-> ToText(r[1]), hash |-> h, yanked |-> e.yanked, rp |-> e.rp]>>)
                    \o LinksFrom(els, k + 1, base, based)
\* a Python build for several platforms counts as one for each of them
RECURSIVE Each(_, _)
Each(l, tags) == IF tags = {} THEN <<>> ELSE LET t == CHOOSE t \in tags : TRUE IN <<[l EXCEPT !.f.tags = <<<<t>>>>]>> \o Each(l, tags \ {t})
Spread(l) == IF l.f.kind # "pybi" THEN <<l>> ELSE Each(l, UNION {PybiTags(l.f.tags[1][k]) : k \in 1..Len(l.f.tags[1])})
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Files(url, els) == LET ls == LinksFrom(els, 1, Absolute(url), FALSE) IN Cat([k \in 1..Len(ls) |-> Spread(ls[k])])

RepoV == <<112,121,112,105,58,114,101,112,111,115,105,116,111,114,121,45,118,101,114,115,105,111,110>>
Supported(els) == \A k \in 1..Len(els) : els[k].el = "meta" /\ els[k].name = <<RepoV>> /\ els[k].content # <<>> => Here(els[k].content[1], 1, <<49, 46>>)

\* ---------------------------------------------------------------- judging posy
Their(g) == [f |-> ParseFile(g.name)[1], url |-> g.url, hash |-> IF g.hash = <<>> THEN <<>> ELSE ParseHash(g.hash[1]), yanked |-> g.yanked, rp |-> g.rp]
Surely(l) == [l EXCEPT !.f.sure = TRUE]
\* what is missing from got, and what should not be there (listing a file several times changes nothing)
Diff(want, got) ==
    LET w == {Surely(want[k]) : k \in 1..Len(want)}
        g == {Surely(got[k]) : k \in 1..Len(got)}
        sure == {Surely(want[k]) : k \in {k \in 1..Len(want) : want[k].f.sure}}
    IN [missing |-> sure \ g, extra |-> g \ w]
Same(want, got) == LET d == Diff(want, got) IN d.missing = {} /\ d.extra = {}
Refs(got) == [k \in 1..Len(got) |-> Their(got[k])]

Fails(ix) == ix.status # 404 /\ (ix.status >= 300 \/ ~ix.html \/ ~Supported(ix.els))
VerdictIndex(x) ==
    CASE x.kind = "page" -> LET w == Files(x.url, x.els) IN [ok |-> x.status = "ok" /\ Same(w, Refs(x.files)), want |-> IF x.status = "ok" THEN Diff(w, Refs(x.files)) ELSE w]
      [] x.kind = "project" ->
        IF \E k \in 1..Len(x.indexes) : Fails(x.indexes[k]) THEN [ok |-> x.status = "err", want |-> "an error"]
        ELSE LET w == Cat([k \in 1..Len(x.indexes) |-> IF x.indexes[k].status = 404 THEN <<>> ELSE Files(x.indexes[k].url, x.indexes[k].els)])
                 vs == [k \in 1..Len(x.groups) |-> ParseVersion(x.groups[k].v)[1]]
             IN [ok |-> /\ x.status = "ok"
                        /\ Same(w, Refs(Cat([k \in 1..Len(x.groups) |-> x.groups[k].files])))
                        /\ \A k \in 1..(Len(vs) - 1) : Cmp(vs[k], vs[k + 1]) > 0
                        /\ \A k \in 1..Len(vs) : \A j \in 1..Len(x.groups[k].files) : Cmp(vs[k], Their(x.groups[k].files[j]).f.v) = 0
                        /\ x.again,
                 want |-> w]
=============================================================================
