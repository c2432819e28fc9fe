----------------------------- MODULE PathsModel -----------------------------
(* The way posy unpacks, over every archive of up to N members: each member's name and link
   target is checked without looking at the file system, directories and files are written in
   the archive's order, and then the links, those with the longest names first, their
   targets freed of "name/..".  Writing
   follows whatever links are in the way, as the operating system does.  Nothing may then be
   written outside, no link may lead outside, and well-formed archives come out as expected.
   LinksLast = FALSE is the naive order and Tidied = FALSE leaves targets as they are: the model
   has to fail for both (checked too).                                                       *)
EXTENDS Paths
CONSTANTS N, NN, NT, LinksLast, Tidied
\* a  b  a/b  ../a  a/b/a  b/a  a/../b  a/a
AllNames == << <<97>>, <<98>>, <<97,47,98>>, <<46,46,47,97>>, <<97,47,98,47,97>>, <<98,47,97>>, <<97,47,46,46,47,98>>, <<97,47,97>> >>
\* ..  ../..  a  b  ../a  a/..  .  b/..
AllTargets == << <<46,46>>, <<46,46,47,46,46>>, <<97>>, <<98>>, <<46,46,47,97>>, <<97,47,46,46>>, <<46>>, <<98,47,46,46>> >>
Names == {AllNames[k] : k \in 1..NN}
Targets == {AllTargets[k] : k \in 1..NT}
VARIABLES ms, tree, escaped, st, todo

Mem == [name : Names, kind : {"file", "dir"}, data : {1}, exec : {FALSE}, target : {<<>>}]
       \union [name : Names, kind : {"link"}, data : {0}, exec : {FALSE}, target : Targets]
\* (a directory's name ends in a slash)
Named(m) == IF m.kind = "dir" THEN [m EXCEPT !.name = m.name \o <<47>>] ELSE m

Init == /\ \E n \in 1..N : ms \in [1..n -> {Named(m) : m \in Mem}]
        /\ tree = {} /\ escaped = FALSE /\ st = "run"
        /\ todo = LET files == {k \in 1..Len(ms) : ms[k].kind # "link"}
                      seq(S) == SelectSeq([k \in 1..Len(ms) |-> k], LAMBDA k : k \in S)
                      len(k) == IF Where(ms[k].name) = <<>> THEN 0 ELSE Len(Where(ms[k].name)[1])
                      long(n) == seq({k \in 1..Len(ms) \ files : len(k) = n})
                  IN IF LinksLast THEN seq(files) \o long(3) \o long(2) \o long(1) \o long(0) ELSE seq(1..Len(ms))

\* makes the directories above p; [tree, at (where it got to), st]
RECURSIVE Dirs(_, _, _, _)
Dirs(t, at, cs, k) ==
    IF k > Len(cs) THEN [tree |-> t, at |-> at, st |-> "in"]
    ELSE LET r == Go(t, at, <<cs[k]>>, 1, 10)
         IN IF r.st # "in" THEN [tree |-> t, at |-> at, st |-> r.st]
            ELSE LET E == {e \in t : e.path = r.path}
                 IN IF r.path # <<>> /\ E = {} THEN Dirs(t \union {Dir(r.path)}, r.path, cs, k + 1)
                    ELSE IF \E e \in E : e.kind # "dir" THEN [tree |-> t, at |-> at, st |-> "err"]
                    ELSE Dirs(t, r.path, cs, k + 1)
\* is the link acceptable, judging by its text?
LinkOk(p, target) == /\ ~Absolute(target) /\ p # <<>>
                     /\ LET cs == Comps(target) IN Aim(p, target) # <<>>
\* the target with every "name/.." taken out: what stays is some .. and then names
RECURSIVE Tidy(_, _, _), Join(_)
Tidy(cs, k, acc) == IF k > Len(cs) THEN acc
                    ELSE IF cs[k] = Up /\ acc # <<>> /\ acc[Len(acc)] # Up THEN Tidy(cs, k + 1, Parent(acc))
                    ELSE Tidy(cs, k + 1, Append(acc, cs[k]))
Join(cs) == IF cs = <<>> THEN <<46>> ELSE IF Len(cs) = 1 THEN cs[1] ELSE cs[1] \o <<47>> \o Join(Tail(cs))
Fail == st' = "err" /\ UNCHANGED <<ms, tree, escaped, todo>>
Step == /\ st = "run" /\ todo # <<>>
        /\ LET m == ms[Head(todo)] w == Where(m.name)
           IN IF w = <<>> THEN Fail
              ELSE IF m.kind = "link" /\ ~LinkOk(w[1], m.target) THEN Fail
              ELSE IF w[1] = <<>> THEN IF m.kind = "dir" THEN todo' = Tail(todo) /\ UNCHANGED <<ms, tree, escaped, st>> ELSE Fail
              ELSE LET d == Dirs(tree, <<>>, Parent(w[1]), 1)
                       p == Append(d.at, w[1][Len(w[1])])
                       E == {e \in d.tree : e.path = p}
                   IN IF d.st = "out" THEN escaped' = TRUE /\ st' = "err" /\ UNCHANGED <<ms, tree, todo>>
                      ELSE IF d.st # "in" THEN st' = "err" /\ tree' = d.tree /\ UNCHANGED <<ms, escaped, todo>>
                      ELSE IF E # {} /\ ~(m.kind = "dir" /\ \A e \in E : e.kind = "dir") THEN st' = "err" /\ tree' = d.tree /\ UNCHANGED <<ms, escaped, todo>>
                      ELSE /\ tree' = d.tree \union {IF m.kind = "link" THEN [Entry(m, p) EXCEPT !.target = IF Tidied THEN Join(Tidy(Comps(m.target), 1, <<>>)) ELSE m.target] ELSE Entry(m, p)}
                           /\ todo' = Tail(todo) /\ UNCHANGED <<ms, escaped, st>>
Done == st = "run" /\ todo = <<>> /\ st' = "ok" /\ UNCHANGED <<ms, tree, escaped, todo>>
Next == Step \/ Done
NoEscape == ~escaped
LinksStay == Contained(tree)
Faithful == (st # "run" /\ WellFormed(ms, TRUE)) => st = "ok" /\ Aimed(tree) = Expected(ms)
=============================================================================
