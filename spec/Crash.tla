--------------------------------- MODULE Crash ---------------------------------
(* What is on disk while environments get installed and processes die in the middle of it: entries (unpacked Pythons and
   packages, unpacked source distributions, kept wheels, downloaded files) that are looked at after every run.

   seen = set of [name, what, content, ino]   an entry that is there: its name, which one it is (the same for all places where
          it may be kept), what's in it, and which directory or file that is
   ref  = set of [what, content]              what each should be, from a run that nothing happened to          *)
EXTENDS Naturals, Sequences
Elements(q) == {q[k] : k \in 1..Len(q)}
\* nothing is there in part, or with anything else in it
Whole(seen, ref) == \A e \in seen : [what |-> e.what, content |-> e.content] \in ref
\* what's there stays, as it is
Stays(before, after) == before \subseteq after
Complete(seen, needed) == needed \subseteq {e.what : e \in seen}

\* x.ref, x.needed; x.env: the environment that comes out; x.runs: [hurt, ok, env, seen]: hurt: something happened to it,
\* ok: it got an environment, env
RECURSIVE From(_, _, _)
From(x, k, before) ==
    IF k > Len(x.runs) THEN [ok |-> TRUE, want |-> ""]
    ELSE LET r == x.runs[k]
             seen == Elements(r.seen)
             ref == Elements(x.ref)
         IN IF ~Whole(seen, ref) THEN [ok |-> FALSE, want |-> [run |-> k, broken |-> {e.name : e \in {e \in seen : ~Whole({e}, ref)}}]]
            ELSE IF ~Stays(before, seen) THEN [ok |-> FALSE, want |-> [run |-> k, changed |-> {e.name : e \in before \ seen}]]
            ELSE IF ~r.hurt /\ ~r.ok THEN [ok |-> FALSE, want |-> [run |-> k, fails |-> TRUE]]
            ELSE IF r.ok /\ r.env # x.env THEN [ok |-> FALSE, want |-> [run |-> k, env |-> x.env]]
            ELSE IF r.ok /\ ~Complete(seen, Elements(x.needed)) THEN [ok |-> FALSE, want |-> [run |-> k, missing |-> Elements(x.needed) \ {e.what : e \in seen}]]
            ELSE From(x, k + 1, seen)
VerdictCrash(x) == From(x, 1, {})

\* ---------------------------------------------------------------- several at once
\* x.runs: one per process; x.seen: what's there in the end; x.stuck: some wait for each other; x.fetched: [file, n]: how often
\* a file was downloaded; x.built: how many wheels were built; x.resolving: they resolve as well (which may build for metadata)
VerdictTogether(x) ==
    LET seen == Elements(x.seen)
        ref == Elements(x.ref)
        rs == Elements(x.runs)
        deaths == Len(SelectSeq(x.runs, LAMBDA r : r.hurt))
        often == {f \in Elements(x.fetched) : f.n > 1 + deaths}
    IN IF x.stuck THEN [ok |-> FALSE, want |-> "everybody finishes"]
       ELSE IF ~Whole(seen, ref) THEN [ok |-> FALSE, want |-> [broken |-> {e.name : e \in {e \in seen : ~Whole({e}, ref)}}]]
       ELSE IF \E r \in rs : ~r.hurt /\ (~r.ok \/ r.env # x.env) THEN [ok |-> FALSE, want |-> [env |-> x.env]]
       ELSE IF (\E r \in rs : r.ok) /\ ~Complete(seen, Elements(x.needed)) THEN [ok |-> FALSE, want |-> [missing |-> Elements(x.needed) \ {e.what : e \in seen}]]
       ELSE IF often # {} THEN [ok |-> FALSE, want |-> [once |-> {f.file : f \in often}]]
       ELSE IF ~x.resolving /\ x.built > 1 + deaths THEN [ok |-> FALSE, want |-> [builds |-> 1 + deaths]]
       ELSE [ok |-> TRUE, want |-> ""]
================================================================================
