------------------------------- MODULE LazyFile -------------------------------
(* Reading a remote file piece by piece. State: the file's length (as the server gave it),
   the position (Unknown after a failure, Far if beyond all numbers), the parts that were
   loaded (half-open intervals), and whether the whole file was downloaded instead.

   An operation: r "start", "end", "cur" (seek by n), "max" (seek to the largest position),
                 "read" (at most n), "exact" (n), "read_all"
   A request:    a, b (the first and the last byte asked for), ans: "ok" (all of it), "short" (a
                 beginning of it), "fault" (no answer, to be tried again), "wrong" (anything else),
                 len (how many bytes came)
   A result:     got "ok" or "err" (or worse), pos (of seeks), len (of data),
                 ats: all the places in the file where the data occurs                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Unknown == -1
Far == -2
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

Opened(len, whole) == [len |-> len, pos |-> 0, loaded |-> {}, whole |-> whole]
Overlap(i, j) == i[1] < j[2] /\ j[1] < i[2]
IsLoaded(st, i) == \A x \in {i[1], i[2] - 1} \union {j[2] : j \in {j \in st.loaded : j[2] < i[2] /\ j[2] > i[1]}} : \E j \in st.loaded : j[1] <= x /\ x < j[2]

\* what a request does, and whether it may be made
MayAsk(st, q) == ~st.whole /\ 0 <= q.a /\ q.a <= q.b /\ q.b < st.len /\ ~\E j \in st.loaded : Overlap(<<q.a, q.b + 1>>, j)
Answered(st, q) == IF q.ans \in {"ok", "short"} /\ q.len > 0 THEN [st EXCEPT !.loaded = @ \union {<<q.a, q.a + q.len>>}] ELSE st
RECURSIVE Asked(_, _, _)
Asked(st, qs, i) == IF i > Len(qs) THEN st ELSE Asked(Answered(st, qs[i]), qs, i + 1)
RECURSIVE MayAskAll(_, _, _)
MayAskAll(st, qs, i) == i > Len(qs) \/ (MayAsk(st, qs[i]) /\ MayAskAll(Answered(st, qs[i]), qs, i + 1))
\* a fault has to be followed by another try, and any other failure ends the operation
Persistent(qs) == \A i \in 1..Len(qs) : /\ qs[i].ans = "fault" /\ i < Len(qs) => qs[i + 1].a = qs[i].a /\ qs[i + 1].b = qs[i].b
                                        /\ qs[i].ans = "wrong" => i = Len(qs)
GivenUp(qs) == Len(qs) > 1 /\ qs[Len(qs)].ans = "fault" /\ qs[Len(qs) - 1].ans = "fault"
Excuse(qs) == GivenUp(qs) \/ \E i \in 1..Len(qs) : qs[i].ans \in {"wrong", "short"}

Left(st) == IF st.pos = Far THEN 0 ELSE Max(0, st.len - st.pos)
Target(st, op) == CASE op.r = "start" -> op.n [] op.r = "end" -> st.len + op.n [] op.r = "cur" -> st.pos + op.n

\* the state after an operation, or what is wrong with it
Bad(s) == [ok |-> FALSE, why |-> s, st |-> 0]
Good(st) == [ok |-> TRUE, why |-> "", st |-> st]
Seek(st, op, res) ==
    LET beyond == op.r = "max" \/ Target(st, op) > st.len
        impossible == IF op.r = "max" THEN FALSE ELSE IF st.pos = Far /\ op.r = "cur" THEN op.n > 0 ELSE Target(st, op) < 0
    IN IF st.pos = Unknown /\ op.r = "cur" THEN Bad("the test makes no sense")
       ELSE IF res.got = "err" THEN IF impossible \/ (st.whole /\ beyond) THEN Good([st EXCEPT !.pos = Unknown]) ELSE Bad("a seek fails")
       ELSE IF impossible THEN Bad("an impossible seek succeeds")
       ELSE IF op.r = "max" \/ (st.pos = Far /\ op.r = "cur") THEN Good([st EXCEPT !.pos = IF op.r = "max" \/ op.n = 0 THEN Far ELSE Unknown])
       ELSE IF res.pos # Target(st, op) THEN Bad("a seek ends elsewhere")
       ELSE Good([st EXCEPT !.pos = Target(st, op)])
Read(st, op, qs, res) ==
    LET new == Asked(st, qs, 1)
        want == CASE op.r = "read" -> Min(op.n, Left(st)) [] op.r = "read_all" -> Left(st) [] op.r = "exact" -> op.n
        enough == IF op.r = "read" THEN IF want = 0 THEN {0} ELSE 1..want ELSE {want}
    IN IF st.pos = Unknown THEN Bad("the test makes no sense")
       ELSE IF ~MayAskAll(st, qs, 1) THEN Bad("bytes are asked for that are there already, or don't exist")
       ELSE IF ~Persistent(qs) THEN Bad("failed requests are not dealt with as they should")
       ELSE IF res.got = "err" THEN IF Excuse(qs) \/ (op.r = "exact" /\ op.n > Left(st)) THEN Good([new EXCEPT !.pos = Unknown]) ELSE Bad("reading fails")
       ELSE IF GivenUp(qs) \/ \E i \in 1..Len(qs) : qs[i].ans = "wrong" THEN Bad("a wrong answer is accepted")
       ELSE IF res.len \notin enough THEN Bad("too much or too little is read")
       ELSE IF res.len = 0 THEN Good(new)
       ELSE IF st.pos \notin {res.ats[i] : i \in 1..Len(res.ats)} THEN Bad("wrong data")
       ELSE IF ~st.whole /\ ~IsLoaded(new, <<st.pos, st.pos + res.len>>) THEN Bad("data from nowhere")
       ELSE Good([new EXCEPT !.pos = @ + res.len])
Step(st, e) == IF e.res.got \notin {"ok", "err"} THEN Bad("a crash")
               ELSE IF e.op.r \in {"start", "end", "cur", "max"} THEN IF e.reqs # <<>> THEN Bad("seeking asks for data") ELSE Seek(st, e.op, e.res)
               ELSE Read(st, e.op, e.reqs, e.res)
RECURSIVE Steps(_, _, _)
Steps(st, es, n) == IF n > Len(es) THEN [at |-> 0, why |-> ""]
                    ELSE LET r == Step(st, es[n]) IN IF r.ok THEN Steps(r.st, es, n + 1) ELSE [at |-> n, why |-> r.why]

\* opening: the answers to the question how long it is (a HEAD request), and to requests for the whole file
\*   head: "range" (len: its length), "none" (can't do ranges), "wrong", "failed"; full: "ok", "wrong", "failed", "no" (not asked for)
Opening(o, res) ==
    IF res \notin {"ok", "err"} THEN "a crash"
    ELSE IF o.head \in {"wrong", "failed"} THEN IF res = "err" \/ (o.head = "wrong" /\ o.full = "ok") THEN "" ELSE "a file is opened though the server makes no sense"
    ELSE IF o.head = "range" THEN IF res = "ok" /\ o.full = "no" THEN "" ELSE IF o.full # "no" THEN "everything is fetched" ELSE "a file is not opened"
    ELSE IF o.full = "no" THEN "the whole file is not fetched"
    ELSE IF (res = "ok") = (o.full = "ok") THEN "" ELSE IF res = "ok" THEN "a wrong file is opened" ELSE "the whole file is not used"
=============================================================================
