-------------------------------- MODULE Build --------------------------------
(* Building packages from source. A universe u describes packages 1..u.n: each has one release.

   u.kind[p]    "wheel" (a wheel that fits), "sdist" (nothing but its source), "both" (its source, and a wheel
                for another platform, from which its metadata is known)
   u.req[p]     the packages it needs when it's used
   u.stat[p], u.dyn[p]   the packages needed to build it, as its files say and as its backend says
   u.system[p]  "own" (its files say what builds it, and with what), "default" (they don't: then setuptools builds it,
                with the packages u.std, setuptools and wheel), "bad" (there's no sense in what they say, or they
                point outside of the source)
   u.asks[p]    whether the backend can be asked what it needs (if not: nothing)
   u.hook[p]    whether the backend can tell the metadata without building the wheel
   u.tag[p]     "any": the wheel that's built fits every Python; "minor": just those with its minor version

   u.lies[p]    "": what its backend makes is right; "prepare" or "wheel": the metadata, or the wheel, that it makes
                is another package's

   u.natives    the Pythons there are for this machine: 31102 is 3.11.2

   What is known, k: k.meta, the packages whose metadata is known; k.wheels, pairs of a package and the minor
   version it was built with, 0 if that doesn't matter.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Reach(_, _, _)
Reach(next, seen, new) == IF new = {} THEN seen ELSE LET s == seen \union new IN Reach(next, s, (UNION {next[p] : p \in new}) \ s)
Closure(u, ps) == Reach(u.req, {}, ps)
Stat(u, p) == IF u.system[p] = "default" THEN u.std ELSE u.stat[p]
Env1(u, p) == Closure(u, Stat(u, p))
Env2(u, p) == Closure(u, Stat(u, p) \union (IF u.asks[p] THEN u.dyn[p] ELSE {}))

\* minor: the minor version of a Python; -1 for one of another platform, for which nothing special can be built here
Fits(u, k, p, minor) == \E m \in {0, minor} : <<p, m>> \in k.wheels
\* what is built in order to know the metadata of p; to have p installed
BuildsForMeta(u, k, p) == u.kind[p] = "sdist" /\ p \notin k.meta
BuildsToInstall(u, k, p, minor) == u.kind[p] # "wheel" /\ ~Fits(u, k, p, minor)
\* a build needs all of its environment: the metadata to choose it, the packages to use them
BuildNeeds(u, k, bminor) == [p \in 1..u.n |-> {q \in Env2(u, p) : BuildsForMeta(u, k, q) \/ BuildsToInstall(u, k, q, bminor)}]
\* an operation: op.what "resolve" or "install" (what was resolved), op.top the packages asked for,
\* op.minor the Python they are for, op.bminor the one that builds
Goal(u, k, op) == {p \in Closure(u, op.top) : BuildsForMeta(u, k, p) \/ (op.what = "install" /\ BuildsToInstall(u, k, p, op.minor))}
\* the packages that have to be built, sooner or later
Built(u, k, op) == Reach(BuildNeeds(u, k, op.bminor), {}, Goal(u, k, op))
\* there's a package that is needed to build itself
Loops(u, k, op) == \E p \in Built(u, k, op) : p \in Reach(BuildNeeds(u, k, op.bminor), {}, BuildNeeds(u, k, op.bminor)[p])
\* the packages whose wheels have to be built
WheelsBuilt(u, k, op) == LET b == Built(u, k, op) IN
    {p \in b : (p \in Closure(u, op.top) /\ op.what = "install" /\ BuildsToInstall(u, k, p, op.minor))
               \/ \E q \in b : p \in BuildNeeds(u, k, op.bminor)[q] /\ BuildsToInstall(u, k, p, op.bminor)}
\* what a backend makes is another package's
LiedTo(u, k, op) == \/ \E p \in Built(u, k, op) : BuildsForMeta(u, k, p) /\ u.lies[p] = (IF u.hook[p] THEN "prepare" ELSE "wheel")
                    \/ \E p \in WheelsBuilt(u, k, op) : u.lies[p] = "wheel"
\* something has to be built, but nobody knows how
Senseless(u, k, op) == \E p \in Built(u, k, op) : u.system[p] = "bad"
\* something would have to be built that can't be
Unfit(u, op) == op.what = "install" /\ op.minor = -1 /\ \E p \in Closure(u, op.top) : u.kind[p] # "wheel" /\ u.tag[p] # "any"

-------------------------------------------------------------------------------
(* A history: operations start and end (in one or several processes), and in between the build backends are
   called. An event e has e.e "start", "end" or a hook: "requires", "prepare+", "wheel+" (begins), "prepare",
   "wheel" (ends), "fails" (the backend fails, on purpose; silently: it just stops, as if all were well, and then
   may be called once more).

   State: s.ops     operations so far, each with its state ("runs", "ended"), what was known for sure at its start (k)
                    and what might have been (maybe), whether a backend failed, what it has finished but perhaps
                    not kept yet (pending), which package failed silently, and the packages whose metadata it found out itself (mine)
          s.known   what's known for sure
          s.done    for each build directory and package, the steps done
          s.used    the Pythons used in each build directory
          s.busy    the wheels being built, by operation                                                        *)
ToSet(seq) == {seq[i] : i \in 1..Len(seq)}
Key(u, p, minor) == <<p, IF u.tag[p] = "any" THEN 0 ELSE minor>>
Nothing == [meta |-> {}, wheels |-> {}]
Both(k, l) == [meta |-> k.meta \union l.meta, wheels |-> k.wheels \union l.wheels]
Empty == [ops |-> <<>>, known |-> Nothing, done |-> {}, used |-> {}, busy |-> {}]
\* everything that might be known
Maybe(s) == [meta |-> s.known.meta \union UNION {s.ops[i].pending.meta : i \in 1..Len(s.ops)},
             wheels |-> s.known.wheels \union UNION {s.ops[i].pending.wheels : i \in 1..Len(s.ops)}]
\* the Python that builds: this very version, or else the newest with that minor version, or else the newest
Newest(vs) == CHOOSE v \in vs : \A w \in vs : w <= v
BuildPython(vs, want) == IF want \in vs THEN want
                         ELSE LET same == {v \in vs : v \div 100 = want \div 100} IN IF same # {} THEN Newest(same) ELSE Newest(vs)

No(why) == [why |-> why, s |-> Empty]
Yes(s) == [why |-> "", s |-> s]
\* it went on, so what it had finished has been kept
Learn(s, o) == [s EXCEPT !.known = Both(@, s.ops[o].pending), !.ops[o].mine = @ \union s.ops[o].pending.meta, !.ops[o].pending = Nothing]
Start(u, s, e) ==
    LET b == BuildPython(u.natives, e.want)
        op == [what |-> e.what, top |-> ToSet(e.top), minor |-> IF e.foreign THEN -1 ELSE e.want \div 100, bpy |-> b, bminor |-> b \div 100]
    IN Yes([s EXCEPT !.ops = Append(@, [op |-> op, dir |-> e.dir, state |-> "runs", k |-> s.known, maybe |-> Maybe(s), failed |-> FALSE, silent |-> 0, pending |-> Nothing, mine |-> {}])])

MustFail(u, s, o) == Loops(u, s.ops[o].maybe, s.ops[o].op) \/ Unfit(u, s.ops[o].op) \/ LiedTo(u, s.ops[o].maybe, s.ops[o].op) \/ Senseless(u, s.ops[o].maybe, s.ops[o].op)
End(u, s0, e) ==
    LET o == e.op
        s == IF e.got = "died" THEN s0 ELSE Learn(s0, o)
        op == s.ops[o].op
        all == Closure(u, op.top)
        over == [s EXCEPT !.ops[o].state = "ended", !.busy = {b \in @ : b[2] # o}]
    IN CASE e.got = "died" -> Yes(over)
         [] e.got = "ok" -> IF s.ops[o].failed THEN No("success although the backend failed")
                            ELSE IF MustFail(u, s, o) THEN No("success where none can be")
                            ELSE IF ToSet(e.inst) # all THEN No("not the packages that are needed")
                            ELSE IF op.what = "install" /\ \E p \in all : u.kind[p] # "wheel" /\ ~Fits(u, Maybe(s), p, op.minor) THEN No("a package that wasn't built is there")
                            ELSE Yes([over EXCEPT !.known.meta = @ \union {p \in all : u.kind[p] = "sdist"}])
         [] e.got = "loop" -> IF Loops(u, s.ops[o].k, op) THEN Yes(over) ELSE No("a loop where there is none")
         [] e.got = "err" -> IF s.ops[o].failed \/ s.ops[o].silent # 0 \/ Unfit(u, op) \/ LiedTo(u, s.ops[o].k, op) \/ Senseless(u, s.ops[o].k, op) THEN Yes(over) ELSE No("failure without reason")
         [] OTHER -> No("a hang or a crash")
Hook(u, s0, e) ==
    LET o == e.op
        r == s0.ops[o]
        s == [Learn(s0, o) EXCEPT !.used = @ \union {<<r.dir, e.py>>}, !.ops[o].silent = IF e.e \in {"requires", "prepare", "wheel"} THEN 0 ELSE @]
        p == e.p
        is(step) == <<r.dir, p, step>> \in s.done
        mark(step) == [s EXCEPT !.done = @ \union {<<r.dir, p, step>>}]
        first == e.e = "requires" \/ (e.e = "fails" /\ e.hook = "requires")
        \* this operation knew its metadata before
        knew == u.kind[p] = "both" \/ p \in r.k.meta \/ p \in s.ops[o].mine
        key == Key(u, p, r.op.bminor)
    IN IF r.state # "runs" THEN No("a build goes on after its end")
       ELSE IF r.failed \/ (r.silent # 0 /\ r.silent # p) THEN No("going on after a failure")
       ELSE IF u.kind[p] = "wheel" THEN No("a package is built that has a wheel")
       ELSE IF u.system[p] = "bad" THEN No("a backend is called that can't be the right one")
       ELSE IF p \notin Built(u, r.k, r.op) THEN No("a package is built though nobody needs that")
       ELSE IF e.py # r.op.bpy /\ ~(<<r.dir, e.py>> \in s0.used /\ e.py \div 100 = r.op.bminor) THEN No("another Python is used for building")
       ELSE IF ToSet(e.mods) # (IF first THEN Env1(u, p) ELSE Env2(u, p)) THEN No("the build environment isn't what was asked for")
       ELSE CASE e.e = "fails" /\ e.silent /\ r.silent = 0 -> Yes([s EXCEPT !.ops[o].silent = p, !.busy = @ \ {<<key, o>>}])
              [] e.e = "fails" -> Yes([s EXCEPT !.ops[o].failed = TRUE, !.busy = @ \ {<<key, o>>}])
              [] e.e = "requires" -> IF is("requires") \/ ~u.asks[p] THEN No("the backend is asked again what it needs") ELSE Yes(mark("requires"))
              [] e.e = "prepare+" -> IF u.asks[p] /\ ~is("requires") THEN No("the backend wasn't asked what it needs")
                                     ELSE IF knew THEN No("metadata is made again")
                                     ELSE IF is("prepare") THEN No("metadata is made again in the same place") ELSE Yes(s)
              [] e.e = "prepare" /\ u.lies[p] = "prepare" -> Yes([mark("prepare") EXCEPT !.ops[o].failed = TRUE])
              [] e.e = "wheel" /\ u.lies[p] = "wheel" -> Yes([s EXCEPT !.ops[o].failed = TRUE, !.busy = @ \ {<<key, o>>}])
              [] e.e = "prepare" -> Yes([mark("prepare") EXCEPT !.ops[o].pending.meta = @ \union {p}])
              [] e.e = "wheel+" -> IF u.asks[p] /\ ~is("requires") THEN No("the backend wasn't asked what it needs")
                                   ELSE IF e.given # (IF is("prepare") THEN "right" ELSE "none") THEN No("the wrong metadata directory")
                                   \* a wheel that's built to know its metadata may be built twice at the same time
                                   ELSE IF ~u.hook[p] /\ ~knew THEN Yes(s)
                                   ELSE IF Fits(u, s.known, p, r.op.bminor) /\ (r.op.minor # -1 \/ u.tag[p] = "any") THEN No("a wheel is built again")
                                   ELSE IF \E b \in s.busy : b[1] = key THEN No("a wheel is built twice at the same time")
                                   ELSE IF u.hook[p] /\ \E i \in 1..Len(s.ops) : i # o /\ s.ops[i].state = "runs" /\ key \in s.ops[i].pending.wheels THEN No("a wheel is built again that was just built")
                                   ELSE Yes([s EXCEPT !.busy = @ \union {<<key, o>>}])
              [] e.e = "wheel" -> Yes([s EXCEPT !.ops[o].pending = [meta |-> @.meta \union {p}, wheels |-> @.wheels \union {key}], !.busy = @ \ {<<key, o>>}])
RECURSIVE Follow(_, _, _, _)
Follow(u, s, es, i) ==
    IF i > Len(es) THEN [at |-> 0, why |-> ""]
    ELSE LET e == es[i]
             r == CASE e.e = "start" -> Start(u, s, e) [] e.e = "end" -> End(u, s, e) [] OTHER -> Hook(u, s, e)
         IN IF r.why # "" THEN [at |-> i, why |-> r.why] ELSE Follow(u, r.s, es, i + 1)
=============================================================================
