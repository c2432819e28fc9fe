------------------------------- MODULE Paths -------------------------------
(* Unpacking archives.  An archive is a sequence of members [name, kind, data, exec, target]:
   kind is "file", "dir", "link" (symbolic) or "odd" (hard links, devices, ...).  A directory
   tree is a set of [path, kind, data, exec, target], the path being a sequence of pieces; the
   directory unpacked into is <<>>.  Names, targets and pieces are sequences of character
   codes.                                                                                   *)
EXTENDS Names, FiniteSets, TLC

Comps(s) == SelectSeq(Split(s, 47), LAMBDA p : p # <<>> /\ p # <<46>>)
Up == <<46, 46>>
Absolute(s) == s # <<>> /\ s[1] = 47

\* pieces that are file names everywhere: no < > : " / \ | ? * or control characters, no dot or blank at the
\* end, and not too long
Portable(p) == /\ p # <<>> /\ Len(p) < 64 /\ p[Len(p)] \notin {46, 32}
               /\ \A i \in 1..Len(p) : p[i] >= 32 /\ p[i] \notin {127, 60, 62, 58, 34, 47, 92, 124, 63, 42} /\ ~(p[i] \in 55296..57343)

\* where a name points, without looking at the file system: <<>> if outside, and <<path>>
RECURSIVE Walk(_, _, _)
Walk(cs, k, at) == IF k > Len(cs) THEN <<at>>
                   ELSE IF cs[k] = Up THEN IF at = <<>> THEN <<>> ELSE Walk(cs, k + 1, SubSeq(at, 1, Len(at) - 1))
                   ELSE Walk(cs, k + 1, Append(at, cs[k]))
Where(name) == IF Absolute(name) THEN <<>> ELSE Walk(Comps(name), 1, <<>>)
Parent(p) == SubSeq(p, 1, Len(p) - 1)
\* where a symbolic link at path p points, if no other links are on the way
Aim(p, target) == IF Absolute(target) THEN <<>> ELSE Walk(Comps(target), 1, Parent(p))

Prefixes(p) == {SubSeq(p, 1, k) : k \in 1..(Len(p) - 1)}
PortableName(name) == \A k \in 1..Len(Comps(name)) : Comps(name)[k] = Up \/ Portable(Comps(name)[k])

\* ---------------------------------------------------------------- what must come out
\* Can this archive be unpacked faithfully?  Nothing points outside, no two members fight
\* for a path, all names are portable; links only in zip files.
WellFormed(ms, links) ==
    LET w == [k \in 1..Len(ms) |-> Where(ms[k].name)]
    IN /\ \A k \in 1..Len(ms) :
            /\ w[k] # <<>> /\ PortableName(ms[k].name)
            /\ ms[k].kind \in {"file", "dir"} \union (IF links THEN {"link"} ELSE {})
            /\ ms[k].kind # "dir" => w[k][1] # <<>>
            /\ ms[k].kind = "file" => ms[k].name[Len(ms[k].name)] # 47
            /\ ms[k].kind = "link" => /\ Aim(w[k][1], ms[k].target) # <<>> /\ PortableName(ms[k].target) /\ ms[k].target # <<>>
                                      /\ \A i \in 2..Len(Comps(ms[k].target)) : Comps(ms[k].target)[i] = Up => Comps(ms[k].target)[i - 1] = Up
       /\ \A k, j \in 1..Len(ms) : k # j =>
            /\ w[k] = w[j] => ms[k].kind = "dir" /\ ms[j].kind = "dir"
            /\ ms[k].kind # "dir" => w[k][1] \notin Prefixes(w[j][1])
Dir(p) == [path |-> p, kind |-> "dir", data |-> 0, exec |-> FALSE, target |-> <<>>]
Entry(m, p) == CASE m.kind = "dir" -> Dir(p)
                 [] m.kind = "link" -> [path |-> p, kind |-> "link", data |-> 0, exec |-> FALSE, target |-> LET a == Aim(p, m.target) IN IF a = <<>> THEN <<>> ELSE a[1]]
                 [] OTHER -> [path |-> p, kind |-> "file", data |-> m.data, exec |-> m.exec, target |-> <<>>]
Expected(ms) ==
    LET w == [k \in 1..Len(ms) |-> Where(ms[k].name)[1]]
    IN {Dir(p) : p \in UNION {Prefixes(w[k]) : k \in 1..Len(ms)}} \union {Entry(ms[k], w[k]) : k \in {k \in 1..Len(ms) : w[k] # <<>>}}

\* ---------------------------------------------------------------- following links
\* Where the operating system gets from directory `at` along cs in this tree:
\* [st |-> "in", path] (path need not exist), or st = "out" or "loop"
RECURSIVE Go(_, _, _, _, _)
Go(tree, at, cs, k, fuel) ==
    IF fuel = 0 THEN [st |-> "loop", path |-> at]
    ELSE IF k > Len(cs) THEN [st |-> "in", path |-> at]
    ELSE IF cs[k] = Up THEN IF at = <<>> THEN [st |-> "out", path |-> at] ELSE Go(tree, Parent(at), cs, k + 1, fuel)
    ELSE LET p == Append(at, cs[k]) L == {e \in tree : e.path = p /\ e.kind = "link"}
         IN IF L = {} THEN Go(tree, p, cs, k + 1, fuel)
            ELSE LET e == CHOOSE e \in L : TRUE
                     r == IF Absolute(e.target) THEN [st |-> "out", path |-> at] ELSE Go(tree, at, Comps(e.target), 1, fuel - 1)
                 IN IF r.st # "in" THEN r ELSE Go(tree, r.path, cs, k + 1, fuel)
Contained(tree) == \A e \in tree : e.kind = "link" => Go(tree, Parent(e.path), <<e.path[Len(e.path)]>>, 1, 40).st # "out"

\* ---------------------------------------------------------------- judging posy
\* x: members, links (whether the format has them), broken (the archive is damaged),
\*    mapped (it is a wheel),
\*    status, tree (its links with the target's text), untouched (nothing outside the directory changed)
SetOf(s) == {s[k] : k \in 1..Len(s)}
Aimed(tree) == {IF e.kind = "link" THEN [e EXCEPT !.target = LET a == Aim(e.path, e.target) IN IF a = <<>> THEN <<>> ELSE a[1]] ELSE e : e \in tree}
\* every file there comes from a member of the archive
Explained(ms, tree) == \A e \in tree : e.kind = "file" => \E k \in 1..Len(ms) : ms[k].kind # "link" /\ Where(ms[k].name) = <<e.path>> /\ ms[k].data = e.data
VerdictPaths(x) ==
    LET tree == SetOf(x.tree)
    IN IF ~x.untouched THEN [ok |-> FALSE, want |-> "nothing outside the directory changes"]
       ELSE IF ~Contained(tree) THEN [ok |-> FALSE, want |-> "no link leads outside"]
       ELSE IF x.status \notin {"ok", "err"} THEN [ok |-> FALSE, want |-> "no crash"]
       ELSE IF x.broken THEN [ok |-> x.status = "err" \/ (WellFormed(x.members, x.links) /\ Aimed(tree) = Expected(x.members)), want |-> "the damage is noticed"]
       ELSE IF x.mapped THEN [ok |-> TRUE, want |-> ""]     \* a wheel: see WheelLayout
       ELSE IF WellFormed(x.members, x.links) THEN
            [ok |-> x.status = "ok" /\ Aimed(tree) = Expected(x.members),
             want |-> [missing |-> Expected(x.members) \ Aimed(tree), extra |-> Aimed(tree) \ Expected(x.members)]]
       ELSE [ok |-> x.status = "ok" => Explained(x.members, tree), want |-> "only members of the archive"]
=============================================================================
