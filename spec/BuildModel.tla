------------------------------ MODULE BuildModel ------------------------------
(* Processes that resolve and install at the same time in one cache and one environment directory, each with a
   build directory of its own, in small steps: every frame of a process's stack is something it is in the middle
   of, with the locks it holds.  Does everybody finish? With the result Build.tla says? Without double work?      *)
EXTENDS Build
CONSTANTS N, MaxReq, Kinds, Procs, Whats, Deaths, LoopCheckFirst
VARIABLES u, op, stack, state, meta, wheels, forest, flock, wlock, done, builds, deaths
vars == <<u, op, stack, state, meta, wheels, forest, flock, wlock, done, builds, deaths>>

P == 1..N
Some(k) == {s \in SUBSET P : Cardinality(s) <= k}
Universes == [n : {N}, kind : [P -> Kinds], req : [P -> Some(MaxReq)], stat : [P -> Some(MaxReq)], dyn : {[p \in P |-> {}]},
              system : {[p \in P |-> "own"]}, asks : {[p \in P |-> TRUE]}, std : {{}}]
Minor == 0
Known == [meta |-> meta, wheels |-> {<<p, 0>> : p \in wheels}]

Tasks(ps, what) == [m |-> ps, i |-> IF what = "install" THEN ps ELSE {}]
Init == /\ u \in Universes
        /\ op \in [Procs -> [what : Whats, top : {{p} : p \in P}, minor : {Minor}, bminor : {Minor}]]
        /\ \A i \in Procs : i > 1 => op[i].what = "install" \/ op[1].what = "resolve"
        /\ stack = [i \in Procs |-> <<[k |-> "all", p |-> 0, todo |-> Tasks(Closure(u, op[i].top), op[i].what)]>>]
        /\ state = [i \in Procs |-> "runs"]
        /\ meta = {} /\ wheels = {} /\ forest = {}
        /\ flock = [p \in P |-> 0] /\ wlock = [p \in P |-> 0]
        /\ builds = [p \in P |-> 0]
        /\ done = [i \in Procs |-> Nothing] /\ deaths = 0

Frame(i) == stack[i][Len(stack[i])]
Below(i) == SubSeq(stack[i], 1, Len(stack[i]) - 1)
SetTop(i, f) == [stack EXCEPT ![i] = Append(Below(i), f)]
Push(i, f, g) == [stack EXCEPT ![i] = Append(Append(Below(i), f), g)]
InProgress(i) == {stack[i][j].p : j \in {j \in 1..Len(stack[i]) : stack[i][j].k = "build"}}
Release(i) == /\ flock' = [p \in P |-> IF flock[p] = i THEN 0 ELSE flock[p]]
              /\ wlock' = [p \in P |-> IF wlock[p] = i THEN 0 ELSE wlock[p]]
Fails(i, why) == state' = [state EXCEPT ![i] = why] /\ Release(i) /\ stack' = [stack EXCEPT ![i] = <<>>]
\* (any task of a frame could be next; metadata comes first, as choosing comes before using)
NextMeta(i, f) == \E p \in f.todo.m :
    LET g == [f EXCEPT !.todo.m = @ \ {p}] IN
    IF ~BuildsForMeta(u, Known, p) THEN stack' = SetTop(i, g) /\ UNCHANGED <<state, flock, wlock>>
    ELSE IF p \in InProgress(i) THEN Fails(i, "loop")
    ELSE stack' = Push(i, g, [k |-> "build", p |-> p, for |-> "meta", todo |-> Tasks(Env2(u, p), "install")]) /\ UNCHANGED <<state, flock, wlock>>
NextInst(i, f) == \E p \in f.todo.i :
    LET g == [f EXCEPT !.todo.i = @ \ {p}] IN
    IF u.kind[p] = "wheel" \/ p \in forest THEN stack' = SetTop(i, g) /\ UNCHANGED <<state, flock, wlock>>
    ELSE IF LoopCheckFirst /\ p \in InProgress(i) THEN Fails(i, "loop")
    ELSE /\ flock[p] = 0
         /\ flock' = [flock EXCEPT ![p] = i]
         /\ stack' = Push(i, g, [k |-> "locked", p |-> p, todo |-> Tasks({}, "")])
         /\ UNCHANGED <<state, wlock>>
Step(i) ==
    LET f == Frame(i) IN
    /\ state[i] = "runs"
    /\ UNCHANGED <<u, op, deaths>>
    /\ CASE f.todo.m # {} -> NextMeta(i, f) /\ UNCHANGED <<meta, wheels, forest, builds, done>>
         [] f.todo.m = {} /\ f.todo.i # {} -> NextInst(i, f) /\ UNCHANGED <<meta, wheels, forest, builds, done>>
         [] f.k = "all" /\ f.todo.m = {} /\ f.todo.i = {} -> /\ stack' = [stack EXCEPT ![i] = <<>>] /\ state' = [state EXCEPT ![i] = "ok"]
                                                             /\ UNCHANGED <<meta, wheels, forest, flock, wlock, builds, done>>
         \* holding the lock of the installed package
         [] f.k = "locked" -> IF f.p \in forest THEN /\ flock' = [flock EXCEPT ![f.p] = 0] /\ stack' = [stack EXCEPT ![i] = Below(i)]
                                                     /\ UNCHANGED <<state, wlock, meta, wheels, forest, builds, done>>
                              ELSE IF f.p \in InProgress(i) THEN Fails(i, "loop") /\ UNCHANGED <<meta, wheels, forest, builds, done>>
                              ELSE /\ wlock[f.p] = 0
                                   /\ wlock' = [wlock EXCEPT ![f.p] = i]
                                   /\ stack' = SetTop(i, [f EXCEPT !.k = "wlocked"])
                                   /\ UNCHANGED <<state, flock, meta, wheels, forest, builds, done>>
         [] f.k = "wlocked" -> IF f.p \in wheels THEN /\ wlock' = [wlock EXCEPT ![f.p] = 0] /\ forest' = forest \union {f.p}
                                                      /\ stack' = SetTop(i, [f EXCEPT !.k = "locked"])
                                                      /\ UNCHANGED <<state, flock, meta, wheels, builds, done>>
                               ELSE /\ stack' = Push(i, f, [k |-> "build", p |-> f.p, for |-> "wheel", todo |-> Tasks(Env2(u, f.p), "install")])
                                    /\ UNCHANGED <<state, flock, wlock, meta, wheels, forest, builds, done>>
         [] f.k = "build" /\ f.todo.m = {} /\ f.todo.i = {} ->
              /\ stack' = [stack EXCEPT ![i] = Below(i)]
              /\ IF f.for = "meta" THEN meta' = meta \union {f.p} /\ UNCHANGED <<wheels, builds>>
                 ELSE wheels' = wheels \union {f.p} /\ builds' = [builds EXCEPT ![f.p] = @ + 1] /\ UNCHANGED meta
              /\ UNCHANGED <<state, flock, wlock, forest, done>>
Die(i) == /\ deaths < Deaths /\ state[i] = "runs" /\ deaths' = deaths + 1
          /\ Fails(i, "died")
          /\ UNCHANGED <<u, op, meta, wheels, forest, builds, done>>
Next == \E i \in Procs : Step(i) \/ Die(i)
Spec == Init /\ [][Next]_vars /\ \A i \in Procs : WF_vars(Step(i))
-----------------------------------------------------------------------------
\* what the mechanism comes to is what Build.tla says
AnyLoops == \E i \in Procs : Loops(u, Nothing, op[i])
Right == \A i \in Procs : (state[i] = "loop" => Loops(u, Nothing, op[i])) /\ (state[i] = "ok" => (Cardinality(Procs) = 1 => ~Loops(u, Nothing, op[i])))
\* nothing is built twice, unless somebody died
Once == deaths = 0 => \A p \in P : builds[p] <= 1
\* nothing is built that nobody needs
Needed == \A p \in P : builds[p] > 0 => \E i \in Procs : p \in Built(u, Nothing, op[i])
\* nobody gets stuck: with loops, everything still ends when alone; without them, it always ends
Stuck == ~ENABLED Next /\ \E i \in Procs : state[i] = "runs"
Moves == (Cardinality(Procs) = 1 \/ ~AnyLoops) => ~Stuck
Finishes == (Cardinality(Procs) = 1 \/ ~AnyLoops) => <>(\A i \in Procs : state[i] # "runs")
=============================================================================
