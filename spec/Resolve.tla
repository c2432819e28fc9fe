------------------------------ MODULE Resolve ------------------------------
(* What it means to resolve a brief against a universe of releases.

   A universe u is a record
     pys      releases of the Python project, each [v, files], files a sequence of
              [plats, yanked, hash, env] (plats: indexes of the platforms it fits)
     pkgs     projects, by number, each a sequence of releases [v, files, reqs, rp, extras];
              files: [yanked, hash, rp] with rp <<>> or <<clauses>>; extras: normalised names
     brief    [py (clauses), reqs, pre (numbers of projects), preAll, prePy]
     like     <<>> or <<[py, pins]>>: previous blueprint; py = [v, hashes], pins sequence of
              [p, v, hashes]
     nplats   number of requested platforms
     machines for each of them, what platform_machine is where the Python does not say
              (it may be built for several): <<>> or <<text>>
   A requirement is [to, extras, cls, marker] with marker <<>> or <<tree>>; `to` is the
   number of a project, 0 if there is no such project.                               *)
EXTENDS Markers

Idx(s) == 1..Len(s)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

\* ---------------------------------------------------------------- eligibility (C03)
AllPre(rels) == \A i \in Idx(rels) : IsPre(rels[i].v)
\* hashes pinned before, as a set; pinned version as <<>> or <<v>>
RpOK(rp, pyv) == rp = <<>> \/ AcceptsAll(rp[1], pyv) # "F"

EligibleFile(f, pinned, pyv) == (~f.yanked \/ f.hash \in pinned) /\ (pyv = <<>> \/ RpOK(f.rp, pyv[1]))
Eligible(rels, i, allowPre, pinned, pyv) ==
    /\ allowPre \/ AllPre(rels) \/ ~IsPre(rels[i].v)
    /\ \E k \in Idx(rels[i].files) : EligibleFile(rels[i].files[k], pinned, pyv)

\* is release i preferred to release j?
Preferred(rels, hint, i, j) ==
    IF hint # <<>> /\ (Cmp(rels[i].v, hint[1]) = 0) # (Cmp(rels[j].v, hint[1]) = 0)
    THEN Cmp(rels[i].v, hint[1]) = 0
    ELSE Cmp(rels[i].v, rels[j].v) > 0

\* ---------------------------------------------------------------- the Python
Hashes(s) == {s[i] : i \in Idx(s)}
PyHint(u) == IF u.like = <<>> THEN <<>> ELSE <<u.like[1].py.v>>
PyPinned(u) == IF u.like = <<>> THEN {} ELSE Hashes(u.like[1].py.hashes)
PyFits(u, i) == {k \in Idx(u.pys[i].files) : u.pys[i].files[k].plats # <<>>}
PyCandidates(u) == {i \in Idx(u.pys) :
    /\ Eligible(u.pys, i, u.brief.preAll \/ u.brief.prePy, PyPinned(u), <<>>)
    /\ AcceptsAll(u.brief.py, u.pys[i].v) = "T"
    /\ PyFits(u, i) # {}}
\* index of the Python release to use, or 0
PyChoice(u) == LET c == PyCandidates(u)
               IN IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c \ {i} : Preferred(u.pys, PyHint(u), i, j)
\* the files of release i that may be the build used: those for the earliest platform
\* (plats lists [n, rank]: the platform's number and how specific the best tag is, 1 = most)
BestPlat(f) == LET ns == {f.plats[k].n : k \in Idx(f.plats)} IN CHOOSE n \in ns : \A m \in ns : n <= m
RankOn(f, n) == LET rs == {f.plats[k].rank : k \in {k \in Idx(f.plats) : f.plats[k].n = n}} IN CHOOSE r \in rs : \A q \in rs : r <= q
On(f, n) == \E k \in Idx(f.plats) : f.plats[k].n = n
PyPlat(u, i) ==
    LET fs == u.pys[i].files
        fit == {k \in Idx(fs) : fs[k].plats # <<>>}
    IN CHOOSE n \in {BestPlat(fs[k]) : k \in fit} : \A k \in fit : n <= BestPlat(fs[k])
PyFiles(u, i) ==
    LET fs == u.pys[i].files
        n == PyPlat(u, i)
        onn == {k \in Idx(fs) : On(fs[k], n)}
    IN {k \in onn : \A j \in onn : RankOn(fs[k], n) <= RankOn(fs[j], n)}

\* ---------------------------------------------------------------- packages
HintOf(u, p) == IF u.like = <<>> THEN <<>>
    ELSE LET hs == {k \in Idx(u.like[1].pins) : u.like[1].pins[k].p = p}
         IN IF hs = {} THEN <<>> ELSE <<u.like[1].pins[MaxOf(hs)].v>>
PinnedOf(u, p) == IF u.like = <<>> THEN {}
    ELSE LET hs == {k \in Idx(u.like[1].pins) : u.like[1].pins[k].p = p}
         IN IF hs = {} THEN {} ELSE Hashes(u.like[1].pins[MaxOf(hs)].hashes)

Usable(u, p, i, pyv) ==
    /\ Eligible(u.pkgs[p], i, u.brief.preAll \/ p \in Hashes(u.brief.pre), PinnedOf(u, p), <<pyv>>)
    /\ AcceptsAll(u.pkgs[p][i].rp, pyv) # "F"

\* The requirements of a release (or the brief) that apply with `extra` (<<>> = none), as a set
\* of [to, extras, ok]: ok are the releases of `to` that satisfy it.
Applies(r, env, extra) == r.marker = <<>> \/ "T" \in Eval(r.marker[1], [x \in DOMAIN env \cup {"extra"} |-> IF x = "extra" THEN extra ELSE env[x]])
Apply(u, reqs, env, extra) ==
    {[to |-> reqs[k].to, extras |-> Hashes(reqs[k].extras),
      ok |-> IF reqs[k].to = 0 THEN {} ELSE {i \in Idx(u.pkgs[reqs[k].to]) : AcceptsAll(reqs[k].cls, u.pkgs[reqs[k].to][i].v) # "F"}] :
     k \in {k \in Idx(reqs) : Applies(reqs[k], env, extra)}}

\* All that counts about a universe once the Python is known.  Extras are named by their
\* normal form; "" stands for no extra.
Graph(u, py, env) ==
    LET pyv == u.pys[py].v
        P == Idx(u.pkgs)
    IN TLCEval([
        root |-> TLCEval(Apply(u, u.brief.reqs, env, <<>>)),
        dom |-> TLCEval([p \in P |-> {i \in Idx(u.pkgs[p]) : Usable(u, p, i, pyv)}]),
        deps |-> TLCEval([p \in P |-> [i \in Idx(u.pkgs[p]) |->
                   [e \in {<<>>} \cup Hashes(u.pkgs[p][i].extras) |-> Apply(u, u.pkgs[p][i].reqs, env, e)]]]) ])

\* nodes needed because of a set of requirements
Pulls(reqs) == UNION {{<<r.to, <<>>>>} \cup {<<r.to, e>> : e \in r.extras} : r \in reqs}
RECURSIVE Closure(_, _, _, _)
\* grows the needed nodes; <<>> if a needed node has no version, lacks the extra or a
\* requirement is not met, <<nodes>> otherwise
Closure(g, A, done, todo) ==
    IF todo = {} THEN <<done>>
    ELSE IF \E nd \in todo : nd[1] = 0 \/ A[nd[1]] = 0 \/ nd[2] \notin DOMAIN g.deps[nd[1]][A[nd[1]]] THEN <<>>
    ELSE LET reqs == UNION {g.deps[nd[1]][A[nd[1]]][nd[2]] : nd \in todo}
         IN IF \E r \in reqs : r.to = 0 \/ A[r.to] \notin r.ok THEN <<>>
            ELSE Closure(g, A, done \cup todo, Pulls(reqs) \ (done \cup todo))
NeededBy(g, A) == IF \E r \in g.root : r.to = 0 \/ A[r.to] \notin r.ok THEN <<>> ELSE Closure(g, A, {}, Pulls(g.root))

\* A (project -> release or 0) satisfies everything, and nothing is pinned needlessly
Exact(A, needed) == \A p \in DOMAIN A : (A[p] # 0) = (<<p, <<>>>> \in needed)
Consistent(g, A) == LET n == NeededBy(g, A) IN n # <<>> /\ Exact(A, n[1])
InDomain(g, A) == \A p \in DOMAIN A : A[p] = 0 \/ A[p] \in g.dom[p]

\* projects that could be needed at all, whatever versions are picked
RECURSIVE Reach(_, _, _)
Reach(g, done, todo) ==
    IF todo = {} THEN done
    ELSE LET reqs == UNION {UNION {UNION {g.deps[p][i][e] : e \in DOMAIN g.deps[p][i]} : i \in g.dom[p]} : p \in todo}
         IN Reach(g, done \cup todo, {r.to : r \in reqs} \ ({0} \cup done \cup todo))
Reachable(g) == Reach(g, {}, {r.to : r \in g.root} \ {0})

\* all assignments with domain-respecting versions over the reachable projects
RECURSIVE Assign(_, _, _)
Assign(g, R, A) ==
    IF R = {} THEN {A}
    ELSE LET p == CHOOSE p \in R : TRUE
         IN UNION {Assign(g, R \ {p}, [A EXCEPT ![p] = i]) : i \in g.dom[p] \cup {0}}
Solutions(g) == LET P == DOMAIN g.dom
                IN {A \in Assign(g, Reachable(g), [p \in P |-> 0]) : Consistent(g, A)}

\* ---------------------------------------------------------------- preference (C03)
\* S is what a search that fixes one project after the other, each at the most preferred
\* release that still leads to a solution, finds for some order of the projects.
RECURSIVE Greedy(_, _, _, _)
Greedy(u, S, left, sols) ==
    \* sols: the solutions that agree with S on the projects fixed so far
    IF left = {} THEN TRUE
    ELSE LET best == {p \in left : \A T \in sols : T[p] # 0 /\ T[p] # S[p] => ~Preferred(u.pkgs[p], HintOf(u, p), T[p], S[p])}
         IN IF best = {} THEN FALSE
            ELSE Greedy(u, S, left \ best, {T \in sols : \A p \in best : T[p] = S[p]})
Best(u, S, sols) == Greedy(u, S, {p \in DOMAIN S : S[p] # 0}, sols)
Stuck(u, S, sols) == {p \in DOMAIN S : S[p] # 0 /\ \E T \in sols : T[p] # 0 /\ T[p] # S[p] /\ Preferred(u.pkgs[p], HintOf(u, p), T[p], S[p])}

\* ---------------------------------------------------------------- recorded markers (C16)
\* marker conditions that decided about a requirement of a needed node
Consulted(reqs, env, extra) ==
    {w \in {Without(reqs[k].marker[1], extra) : k \in {k \in Idx(reqs) : reqs[k].marker # <<>>}} : w.t \notin {"T", "F"}}
AllConsulted(u, env, S, needed) ==
    Consulted(u.brief.reqs, env, <<>>) \cup UNION {Consulted(u.pkgs[nd[1]][S[nd[1]]].reqs, env, nd[2]) : nd \in needed}

\* conditions that cannot be decided, as they use a variable the Python does not have
NoAnswer(reqs, env, extra) == \E k \in Idx(reqs) : reqs[k].marker # <<>> /\ Eval(reqs[k].marker[1], [x \in DOMAIN env \cup {"extra"} |-> IF x = "extra" THEN extra ELSE env[x]]) = {"E"}
Undecided(u, env, S, needed) ==
    NoAnswer(u.brief.reqs, env, <<>>) \/ \E nd \in needed : NoAnswer(u.pkgs[nd[1]][S[nd[1]]].reqs, env, nd[2])
Unsaid(u, env) == "platform_machine" \notin DOMAIN env     \* the only one that may be missing here

\* ---------------------------------------------------------------- judging posy
\* x.u universe; x.status "ok"/"err"/...; x.py, x.pins (sequence: release index per project,
\* 0 = not pinned, -1 = pinned at a version the index does not have); x.extraPins (pins of
\* unknown projects or repeated pins); x.hashesOK; x.markers: sequence of [m, val]
Machine(env, m) == IF m = <<>> \/ "platform_machine" \in DOMAIN env THEN env ELSE env @@ ("platform_machine" :> m[1])
EnvOf(u, py) == LET ks == PyFiles(u, py) IN {Machine(u.pys[py].files[k].env, u.machines[PyPlat(u, py)]) : k \in ks}

\* Does some specifier meet a version where PEP 440 leaves the answer open?
OpenReqs(u, reqs) == \E k \in Idx(reqs) : reqs[k].to # 0 /\ \E i \in Idx(u.pkgs[reqs[k].to]) : AcceptsAll(reqs[k].cls, u.pkgs[reqs[k].to][i].v) = "X"
Open(u) == \/ OpenReqs(u, u.brief.reqs)
           \/ \E p \in Idx(u.pkgs) : \E i \in Idx(u.pkgs[p]) : OpenReqs(u, u.pkgs[p][i].reqs)
           \/ \E i \in Idx(u.pys) : AcceptsAll(u.brief.py, u.pys[i].v) = "X"

VerdictResolve(x) ==
    LET u == x.u
        choice == PyChoice(u)
        py == IF x.status = "ok" THEN x.py ELSE choice
        S == [p \in Idx(u.pkgs) |-> x.pins[p]]
        env == CHOOSE e \in EnvOf(u, py) : TRUE
        g == Graph(u, py, env)
    IN CASE x.kind = "sound" ->
              IF x.status = "err" THEN [ok |-> TRUE, want |-> "-"]
              ELSE IF x.status # "ok" THEN [ok |-> FALSE, want |-> <<"an answer">>]
              ELSE IF x.py = 0 \/ x.extraPins \/ \E p \in DOMAIN S : S[p] < 0 THEN [ok |-> FALSE, want |-> <<"pins of releases that exist, once each">>]
              ELSE LET need == NeededBy(g, S)
                       pyv == u.pys[py].v
                   IN IF AcceptsAll(u.brief.py, pyv) = "F" THEN [ok |-> FALSE, want |-> <<"a Python that is asked for">>]
                      ELSE IF need = <<>> THEN [ok |-> FALSE, want |-> <<"requirements satisfied", g.root>>]
                      ELSE IF Undecided(u, env, S, need[1]) THEN [ok |-> FALSE, want |-> <<"an error: a condition on something unknown">>]
                      ELSE IF ~Exact(S, need[1]) THEN [ok |-> FALSE, want |-> <<"exactly the needed projects", need[1]>>]
                      ELSE IF \E p \in DOMAIN S : S[p] > 0 /\ AcceptsAll(u.pkgs[p][S[p]].rp, pyv) = "F"
                           THEN [ok |-> FALSE, want |-> <<"releases that support the Python">>]
                      ELSE [ok |-> x.hashesOK, want |-> <<"the hashes of the releases' files">>]
         [] x.kind = "complete" ->
              IF x.status \notin {"ok", "err"} THEN [ok |-> FALSE, want |-> <<"an answer">>]
              ELSE IF Open(u) THEN [ok |-> TRUE, want |-> "-"]
              ELSE IF choice = 0 THEN [ok |-> x.status = "err", want |-> <<"an error: no Python">>]
              ELSE LET sols == Solutions(Graph(u, choice, CHOOSE e \in EnvOf(u, choice) : TRUE))
                   IN [ok |-> IF Unsaid(u, CHOOSE e \in EnvOf(u, choice) : TRUE) THEN x.status = "err" \/ sols # {} ELSE (x.status = "ok") = (sols # {}), want |-> IF sols = {} THEN <<"an error: no solution">> ELSE <<"a solution such as", CHOOSE s \in sols : TRUE>>]
         [] x.kind = "prefer" ->
              IF x.status # "ok" THEN [ok |-> x.status = "err", want |-> <<"an answer">>]
              ELSE IF Open(u) THEN [ok |-> TRUE, want |-> "-"]
              ELSE IF x.py # choice THEN [ok |-> FALSE, want |-> <<"Python release", choice>>]
              ELSE IF \E p \in DOMAIN S : S[p] # 0 /\ S[p] \notin g.dom[p] THEN [ok |-> FALSE, want |-> <<"eligible releases", g.dom>>]
              ELSE LET sols == Solutions(g)
                   IN IF S \notin sols THEN [ok |-> TRUE, want |-> "-"]
                      ELSE [ok |-> Best(u, S, sols), want |-> <<"more preferred releases of projects", Stuck(u, S, sols)>>]
         [] x.kind = "markers" ->
              IF x.status # "ok" \/ x.extraPins \/ x.py = 0 \/ \E p \in DOMAIN S : S[p] < 0 THEN [ok |-> TRUE, want |-> "-"]
              ELSE LET need == NeededBy(g, S)
                       rec == {x.markers[k].m : k \in Idx(x.markers)}
                   IN IF need = <<>> THEN [ok |-> TRUE, want |-> "-"]
                      ELSE IF \E k \in Idx(x.markers) : Mentions(x.markers[k].m) THEN [ok |-> FALSE, want |-> <<"no extra in conditions">>]
                      ELSE IF \E k \in Idx(x.markers) : (IF x.markers[k].val THEN "T" ELSE "F") \notin Eval(x.markers[k].m, env)
                           THEN [ok |-> FALSE, want |-> <<"truth of recorded conditions", {k \in Idx(x.markers) : (IF x.markers[k].val THEN "T" ELSE "F") \notin Eval(x.markers[k].m, env)}>>]
                      ELSE [ok |-> AllConsulted(u, env, S, need[1]) \subseteq rec, want |-> <<"conditions recorded", AllConsulted(u, env, S, need[1]) \ rec>>]
=============================================================================
