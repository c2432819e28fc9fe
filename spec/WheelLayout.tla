---------------------------- MODULE WheelLayout ----------------------------
(* Where the files of a wheel go (the wheel specification), and its entry points.
   A wheel is its file name and its members [name, kind, data, exec, text, head]: `text` is
   the content of the files that matter for the installation, `head` how any file begins.
   Installed, a file is an entry of a tree as in Paths, and a launcher an entry of kind
   "launch" (or "launch.exe") whose target says what it runs:
   console or gui, ":", module, ":", object, or the number of the script.                  *)
EXTENDS Paths, Metadata

\* ---------------------------------------------------------------- entry_points.txt
RECURSIVE StripL(_), UpToComment(_, _)
WsC == {9, 11, 12, 13, 32}
StripL(s) == IF s # <<>> /\ s[1] \in WsC THEN StripL(Tail(s)) ELSE s
RECURSIVE StripR(_)
StripR(s) == IF s # <<>> /\ s[Len(s)] \in WsC THEN StripR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == StripL(StripR(s))
UpToComment(s, i) == IF i > Len(s) \/ s[i] \in {35, 59} THEN SubSeq(s, 1, i - 1) ELSE UpToComment(s, i + 1)
FirstC(s, c) == LET I == {i \in 1..Len(s) : s[i] = c} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j

IdentC(c) == IsAlnum(c) \/ c = 95
IsIdent(s) == s # <<>> /\ ~IsDigit(s[1]) /\ \A i \in 1..Len(s) : IdentC(s[i])
Dotted(s) == LET ps == Split(s, 46) IN \A k \in 1..Len(ps) : IsIdent(ps[k])
\* letters and dots, but not proper: tools may let it pass
Loose(s) == s # <<>> /\ ~IsDigit(s[1]) /\ s[1] # 46 /\ \A i \in 1..Len(s) : IdentC(s[i]) \/ s[i] = 46

\* what stands after the "=": [st, mod, obj]
ObjRef(v0) ==
    LET br == FirstC(v0, 91)
        v == Strip(IF br > 0 /\ v0[Len(v0)] = 93 THEN SubSeq(v0, 1, br - 1) ELSE v0)
        colon == FirstC(v, 58)
        mod == IF colon = 0 THEN v ELSE StripR(SubSeq(v, 1, colon - 1))
        obj == IF colon = 0 THEN <<>> ELSE StripL(SubSeq(v, colon + 1, Len(v)))
    IN IF Dotted(mod) /\ (colon = 0 \/ Dotted(obj)) THEN [st |-> "ok", mod |-> mod, obj |-> obj]
       ELSE IF Loose(mod) /\ (colon = 0 \/ Loose(obj)) THEN [st |-> "unsure", mod |-> mod, obj |-> obj]
       ELSE [st |-> "no", mod |-> <<>>, obj |-> <<>>]

RECURSIVE Indent(_)
Indent(s) == IF s # <<>> /\ s[1] \in WsC THEN 1 + Indent(Tail(s)) ELSE 0
RECURSIVE Entries(_, _, _, _)
\* sec: <<>> or <<the section's name>>. A line that is indented more than the entry before
\* it could also be read as continuing it.
Entries(ls, k, sec, acc) ==
    IF k > Len(ls) THEN acc
    ELSE LET l == Strip(UpToComment(ls[k], 1)) e == FirstC(l, 61)
         IN IF l = <<>> THEN Entries(ls, k + 1, sec, acc)
            ELSE IF l[1] = 91 /\ l[Len(l)] = 93 /\ Len(l) > 2 THEN
                 LET n == SubSeq(l, 2, Len(l) - 1)
                 IN Entries(ls, k + 1, <<n>>, [(IF Strip(n) # n \/ FirstC(n, 91) + FirstC(n, 93) > 0 THEN [acc EXCEPT !.st = "unsure"] ELSE acc) EXCEPT !.ind = 99])
            ELSE IF e = 0 \/ sec = <<>> THEN [acc EXCEPT !.st = "no"]
            ELSE LET v == ObjRef(StripL(SubSeq(l, e + 1, Len(l))))
                     n == StripR(SubSeq(l, 1, e - 1))
                     odd == v.st = "unsure" \/ n = <<>> \/ l[1] = 91 \/ Indent(ls[k]) > acc.ind
                     x == [sec |-> sec[1], name |-> n, mod |-> v.mod, obj |-> v.obj]
                 IN IF FirstC(SubSeq(l, e + 1, Len(l)), 61) > 0 THEN [acc EXCEPT !.st = "unsure"]
                    ELSE IF v.st = "no" THEN [acc EXCEPT !.st = "no"]
                    ELSE Entries(ls, k + 1, sec, [st |-> IF odd THEN "unsure" ELSE acc.st, es |-> Append(acc.es, x), ind |-> Indent(ls[k])])
\* [st, es]: st is "ok", "no" (must be refused) or "unsure"
EntryPoints(s) ==
    LET r == Entries(Split(s, 10), 1, <<>>, [st |-> "ok", es |-> <<>>, ind |-> 99]) IN r

\* ---------------------------------------------------------------- layout
Own(s, t) == Len(s) > Len(t) /\ EndsWith(s, t)
DistInfo == <<46,100,105,115,116,45,105,110,102,111>>
Data == <<46,100,97,116,97>>
Console == <<99,111,110,115,111,108,101,95,115,99,114,105,112,116,115>>
Gui == <<103,117,105,95,115,99,114,105,112,116,115>>
Top(n) == LET i == FirstC(n, 47) IN IF i = 0 THEN n ELSE SubSeq(n, 1, i - 1)
\* is d (without its suffix) name-version of this wheel?
Belongs(d, f) ==
    LET hs == {i \in 1..Len(d) : d[i] = 45}
        h == IF hs = {} THEN 0 ELSE CHOOSE i \in hs : \A j \in hs : j <= i
        n == SubSeq(d, 1, h - 1) v == ParseVersion(SubSeq(d, h + 1, Len(d)))
    IN h > 0 /\ IsName(n) /\ Norm(n) = f.dist /\ v # <<>> /\ Cmp(v[1], f.v) = 0

TextOf(ms, name) == {ms[k].text : k \in {k \in 1..Len(ms) : ms[k].name = name /\ ms[k].kind = "file"}}
The(S) == CHOOSE x \in S : TRUE
Category == ( <<112,117,114,101,108,105,98>> :> << <<108,105,98>> >>  @@  <<112,108,97,116,108,105,98>> :> << <<108,105,98>> >>
              @@ <<115,99,114,105,112,116,115>> :> << <<98,105,110>> >>  @@  <<100,97,116,97>> :> <<>> )
Scripts == <<115,99,114,105,112,116,115>>
WV == <<119,104,101,101,108,45,118,101,114,115,105,111,110>>
RIP == <<114,111,111,116,45,105,115,45,112,117,114,101,108,105,98>>

\* why the wheel must be refused, or "" (or "unsure")
Refusal(f, ms) ==
    LET tops == {Top(ms[k].name) : k \in 1..Len(ms)}
        dis == {t \in tops : EndsWith(t, DistInfo)}
        das == {t \in tops : EndsWith(t, Data)}
        di == The(dis)
        stem(t, suf) == SubSeq(t, 1, Len(t) - Len(suf))
        wheel == TextOf(ms, di \o <<47,87,72,69,69,76>>)
        meta == TextOf(ms, di \o <<47,77,69,84,65,68,65,84,65>>)
        eps == TextOf(ms, di \o <<47,101,110,116,114,121,95,112,111,105,110,116,115,46,116,120,116>>)
        wf == Fields(The(wheel)) mf == Fields(The(meta))
        w == Where([k \in 1..0 |-> 0])
        bad(k) == LET p == Where(ms[k].name)
                  IN p # <<>> /\ Len(p[1]) >= 2 /\ das # {} /\ p[1][1] = The(das) /\ p[1][2] \notin DOMAIN Category
    IN IF dis = {} THEN "no .dist-info"
       ELSE IF Cardinality(dis) > 1 THEN "several .dist-infos"
       ELSE IF ~Belongs(stem(di, DistInfo), f) THEN ".dist-info of something else"
       ELSE IF Cardinality(das) > 1 THEN "several .data"
       ELSE IF das # {} /\ ~Belongs(stem(The(das), Data), f) THEN ".data of something else"
       ELSE IF wheel = {} THEN "no WHEEL"
       ELSE IF wf = <<>> THEN "malformed WHEEL"
       ELSE IF Len(All(wf[1], WV)) # 1 \/ ~Here(All(wf[1], WV)[1], 1, <<49,46>>) THEN "wheel version"
       ELSE IF Len(All(wf[1], RIP)) # 1 \/ All(wf[1], RIP)[1] \notin {<<116,114,117,101>>, <<102,97,108,115,101>>} THEN "Root-Is-Purelib"
       ELSE IF meta = {} THEN "no METADATA"
       ELSE IF mf = <<>> \/ Wheel(mf[1]) = <<>> THEN "malformed METADATA"
       ELSE IF Wheel(mf[1])[1].name # f.dist \/ Cmp(Wheel(mf[1])[1].v, f.v) # 0 THEN "METADATA of something else"
       ELSE IF \E k \in 1..Len(ms) : bad(k) THEN "unknown data category"
       ELSE IF \E k \in 1..Len(ms) : ms[k].kind = "link" THEN "a link"
       ELSE IF eps # {} THEN LET e == EntryPoints(The(eps)) IN IF e.st = "no" THEN "malformed entry points" ELSE IF e.st = "unsure" THEN "unsure" ELSE ""
       ELSE ""

Exe == <<46,101,120,101>>
Shebang == <<35,33,112,121,116,104,111,110>>
ConsoleT == <<99,111,110,115,111,108,101,58>>
GuiT == <<103,117,105,58>>
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Launch(p, t) == { [path |-> p, kind |-> "launch", data |-> 0, exec |-> TRUE, target |-> t],
                  [path |-> [p EXCEPT ![Len(p)] = @ \o Exe], kind |-> "launch.exe", data |-> 0, exec |-> TRUE, target |-> t] }

\* where member m goes: <<>> nowhere, or <<directory, rest, is a script>>
Place(m, data) ==
    LET p == Where(m.name)[1]
    IN IF p = <<>> THEN << <<>>, <<>>, FALSE >>
       ELSE IF p[1] # data THEN << << <<108,105,98>> >>, p, FALSE >>
       ELSE IF Len(p) = 1 THEN <<>>
       ELSE << Category[p[2]], SubSeq(p, 3, Len(p)), p[2] = Scripts >>
Installed(f, ms) ==
    LET tops == {Top(ms[k].name) : k \in 1..Len(ms)}
        di == The({t \in tops : EndsWith(t, DistInfo)})
        das == {t \in tops : EndsWith(t, Data)}
        data == IF das = {} THEN <<>> ELSE The(das)
        eps == TextOf(ms, di \o <<47,101,110,116,114,121,95,112,111,105,110,116,115,46,116,120,116>>)
        es == IF eps = {} THEN <<>> ELSE SelectSeq(EntryPoints(The(eps)).es, LAMBDA e : e.sec \in {Console, Gui})
        one(m) == LET pl == Place(m, data)
                  IN IF pl = <<>> \/ pl[1] \o pl[2] = <<>> THEN {}
                     ELSE LET p == pl[1] \o pl[2]
                          IN IF m.kind = "dir" THEN {Dir(p)}
                             ELSE IF pl[3] /\ Here(m.head, 1, Shebang)
                                  THEN Launch(p, (IF Here(m.head, 1, Shebang \o <<119>>) THEN GuiT ELSE ConsoleT) \o Digits(m.data))
                             ELSE {[path |-> p, kind |-> "file", data |-> m.data, exec |-> m.exec \/ pl[3], target |-> <<>>]}
        all == UNION {one(ms[k]) : k \in 1..Len(ms)}
               \union {[path |-> << <<108,105,98>>, di, <<73,78,83,84,65,76,76,69,82>> >>, kind |-> "file", data |-> 9000, exec |-> FALSE, target |-> <<>>]}
               \union UNION {Launch(<< <<98,105,110>>, es[k].name >>, (IF es[k].sec = Gui THEN GuiT ELSE ConsoleT) \o es[k].mod \o <<58>> \o es[k].obj) : k \in 1..Len(es)}
    IN all \union {Dir(p) : p \in UNION {Prefixes(e.path) : e \in all}}

\* members that fight for a path, or have odd names
Clash(f, ms) ==
    LET tops == {Top(ms[k].name) : k \in 1..Len(ms)}
        das == {t \in tops : EndsWith(t, Data)}
        data == IF das = {} THEN <<>> ELSE The(das)
        di == The({t \in tops : EndsWith(t, DistInfo)})
        eps == TextOf(ms, di \o <<47,101,110,116,114,121,95,112,111,105,110,116,115,46,116,120,116>>)
        es == IF eps = {} THEN <<>> ELSE SelectSeq(EntryPoints(The(eps)).es, LAMBDA e : e.sec \in {Console, Gui})
        I == Installed(f, ms)
        n == Cardinality({k \in 1..Len(ms) : ms[k].kind = "file" /\ Place(ms[k], data) # <<>>})
        s == Cardinality({k \in 1..Len(ms) : ms[k].kind = "file" /\ Place(ms[k], data) # <<>> /\ Place(ms[k], data)[3] /\ Here(ms[k].head, 1, Shebang)})
    IN \/ \E k \in 1..Len(ms) : Where(ms[k].name) = <<>> \/ ~PortableName(ms[k].name) \/ (ms[k].kind = "file" /\ (Where(ms[k].name)[1] = <<>> \/ ms[k].name[Len(ms[k].name)] = 47))
       \/ \E k \in 1..Len(es) : ~Portable(es[k].name) \/ es[k].obj = <<>> \/ es[k].name \in {Up, <<46>>}
       \/ Cardinality({e \in I : e.kind # "dir"}) # n + s + 1 + 2 * Len(es)
       \/ \E e, g \in I : e.kind # "dir" /\ e.path \in Prefixes(g.path) \union {h.path : h \in {h \in I : h.kind = "dir"}}
       \/ Cardinality({e.path : e \in I}) # Cardinality(I)

\* ---------------------------------------------------------------- judging posy
Triples(es) == {<<es[k].sec, es[k].name, es[k].mod, es[k].obj>> : k \in 1..Len(es)}
VerdictLayout(x) ==
    IF x.kind = "entries" THEN
        LET e == EntryPoints(x.s)
        IN [ok |-> CASE x.status = "panic" -> FALSE
                     [] e.st = "unsure" -> TRUE
                     [] e.st = "no" -> x.status = "err"
                     [] OTHER -> x.status = "ok" /\ SetOf(x.es) = Triples(e.es) /\ Len(x.es) = Len(e.es),
            want |-> e]
    ELSE LET f == ParseFile(x.file)[1] r == Refusal(f, x.members)
             tree == SetOf(x.tree)
         IN IF x.status = "panic" THEN [ok |-> FALSE, want |-> "no crash"]
            ELSE IF r = "unsure" THEN [ok |-> TRUE, want |-> ""]
            ELSE IF r # "" THEN [ok |-> x.status = "err", want |-> r]
            ELSE IF Clash(f, x.members) THEN [ok |-> TRUE, want |-> ""]
            ELSE [ok |-> x.status = "ok" /\ tree = Installed(f, x.members), want |-> [missing |-> Installed(f, x.members) \ tree, extra |-> tree \ Installed(f, x.members)]]
=============================================================================
