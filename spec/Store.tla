------------------------------- MODULE Store -------------------------------
(* The on-disk stores, seen through the file system.
   A state records the files (names, contents, what was flushed), the locks, and what each
   user of the store (an actor; several may live in one process) is in the middle of.
   Step(st, e) is the file system and the bookkeeping; Fault(st, e) says what rule the
   event e breaks in state st, or "". The same two operators serve StoreModel, where the
   events come from posy's design, and StoreJudge, where they were recorded from posy.

   Paths are sequences of strings. An event has
     ev    open write fsync truncate close lock blocked unlink rename link mkdir rmdir
           death start end produce produced stuck
     p, q  the actor and its process         ok   did the call succeed
     path, path2, ino, fd, at, data          hurt an error was injected into the call
     creat, trunc (of open)
     do, k, val, fails (of start)            res, some (of end)
   Keys are <<path>> in Keys[k].  A value is a set of <<relative path, contents>>.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Absent == {}  \* values are never empty sets
DirMark == << -1 >>

Ev0 == [ev |-> "", p |-> 0, q |-> 0, ok |-> TRUE, hurt |-> FALSE, path |-> <<>>, path2 |-> <<>>, ino |-> 0, fd |-> -1, at |-> 0,
        data |-> <<>>, creat |-> FALSE, trunc |-> FALSE, do |-> "", k |-> 0, val |-> {}, fails |-> FALSE, res |-> "", some |-> <<>>]

\* st.names: path -> inode (0: a directory); st.data, st.flushed: inode -> contents
Empty(f) == [x \in {} |-> f]
Init0 == [names |-> <<>>, data |-> <<>>, flushed |-> <<>>, pub |-> {}, holds |-> {}, act |-> <<>>]
Idle == [do |-> "", k |-> 0, val |-> {}, fails |-> FALSE, seen |-> {}, hurt |-> FALSE, ran |-> FALSE, done |-> FALSE]
NewActor == [op |-> Idle, key |-> 0, buf |-> <<>>, writing |-> FALSE, handles |-> <<>>]

Put(f, x, v) == (x :> v) @@ f
Get(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Drop(f, X) == [x \in DOMAIN f \ X |-> f[x]]
Actor(st, p) == Get(st.act, p, NewActor)
StartsW(s, t) == Len(s) >= Len(t) /\ SubSeq(s, 1, Len(t)) = t
Below(st, path) == {n \in DOMAIN st.names : StartsW(n, path)}
Rest(n, path) == SubSeq(n, Len(path) + 1, Len(n))

\* the value visible under a path
ValueAt(st, path) ==
    IF path \notin DOMAIN st.names THEN Absent
    ELSE {<<Rest(n, path), IF st.names[n] = 0 THEN DirMark ELSE Get(st.data, st.names[n], <<>>)>> : n \in Below(st, path)}
FlushedAt(st, path) ==
    {<<Rest(n, path), IF st.names[n] = 0 THEN DirMark ELSE Get(st.flushed, st.names[n], <<>>)>> : n \in Below(st, path)}
Bytes(d) == {<< <<>>, d >>}

Overwrite(s, at, d) ==
    LET n == IF at + Len(d) > Len(s) THEN at + Len(d) ELSE Len(s)
    IN [i \in 1..n |-> IF i > at /\ i <= at + Len(d) THEN d[i - at] ELSE IF i <= Len(s) THEN s[i] ELSE 0]

Files(st, e) ==
    IF ~e.ok THEN st
    ELSE CASE e.ev = "open" ->
              IF e.path \notin DOMAIN st.names /\ ~e.creat THEN st    \* something from before the recording
              ELSE IF e.path \in DOMAIN st.names /\ st.names[e.path] = 0 THEN st
              ELSE LET new == e.path \notin DOMAIN st.names
                   IN [st EXCEPT !.names = Put(@, e.path, e.ino), !.data = IF new \/ e.trunc THEN Put(@, e.ino, <<>>) ELSE @,
                                 !.flushed = IF new THEN Put(@, e.ino, <<>>) ELSE @]
           [] e.ev = "write" -> [st EXCEPT !.data = Put(@, e.ino, Overwrite(Get(@, e.ino, <<>>), e.at, e.data))]
           [] e.ev = "truncate" -> [st EXCEPT !.data = Put(@, e.ino, SubSeq(Overwrite(Get(@, e.ino, <<>>), e.at, <<>>), 1, e.at))]
           [] e.ev = "fsync" -> [st EXCEPT !.flushed = Put(@, e.ino, Get(st.data, e.ino, <<>>))]
           [] e.ev = "mkdir" -> [st EXCEPT !.names = Put(@, e.path, 0)]
           [] e.ev \in {"unlink", "rmdir"} -> [st EXCEPT !.names = Drop(@, {e.path})]
           [] e.ev = "link" -> IF e.path \in DOMAIN st.names THEN [st EXCEPT !.names = Put(@, e.path2, st.names[e.path])] ELSE st
           [] e.ev = "rename" ->
              LET moved == Below(st, e.path) gone == Below(st, e.path2)
                  kept == Drop(st.names, moved \union gone)
              IN IF e.path = e.path2 THEN st
                 ELSE [st EXCEPT !.names = [n \in {e.path2 \o Rest(m, e.path) : m \in moved} |-> st.names[e.path \o Rest(n, e.path2)]] @@ kept]
           [] OTHER -> st

\* the key the actor is dealing with: that of its operation, or of the lock it took before
KeyOf(a) == IF a.op.k # 0 THEN a.op.k ELSE a.key
Holders(st, k) == {h \in st.holds : h.k = k}
Holding(st, p, k) == \E h \in Holders(st, k) : h.p = p

Locks(st, e) ==
    CASE e.ev = "lock" /\ e.ok /\ KeyOf(Actor(st, e.p)) # 0 ->
             [st EXCEPT !.holds = @ \union {[q |-> e.q, fd |-> e.fd, p |-> e.p, k |-> KeyOf(Actor(st, e.p))]}]
      [] e.ev \in {"close", "unlock"} -> [st EXCEPT !.holds = {h \in @ : h.q # e.q \/ h.fd # e.fd}]
      [] e.ev = "death" -> [st EXCEPT !.holds = {h \in @ : h.q # e.q}, !.act = [p \in {p \in DOMAIN @ : p # e.p} |-> @[p]]]
      [] OTHER -> st

Op(e) == [do |-> e.do, k |-> e.k, val |-> e.val, fails |-> e.fails, seen |-> {}, hurt |-> FALSE, ran |-> FALSE, done |-> FALSE]
Users(st, e) ==
    IF e.ev \in {"death", "stuck"} \/ e.p = 0 THEN st
    ELSE LET a == Actor(st, e.p)
             b == CASE e.ev = "start" -> [a EXCEPT !.op = Op(e), !.buf = IF e.do = "write" /\ a.writing THEN @ \o e.data ELSE IF e.do = "begin" THEN <<>> ELSE @]
                    [] e.ev = "produce" -> [a EXCEPT !.op.ran = TRUE]
                    [] e.ev = "produced" -> [a EXCEPT !.op.done = TRUE]
                    [] e.ev = "end" ->
                       LET k == IF a.op.do \in {"lock", "lock_if_exists", "dlock"} /\ Holding(st, e.p, a.op.k) THEN a.op.k
                                ELSE IF a.op.do \in {"unlock", "remove"} THEN 0 ELSE a.key
                           w == IF a.op.do = "begin" THEN e.res = "ok" /\ a.key # 0 ELSE IF a.op.do \in {"commit", "abandon", "unlock", "remove"} \/ (a.op.do = "write" /\ e.res = "err") THEN FALSE ELSE a.writing
                       IN [a EXCEPT !.op = Idle, !.key = k, !.writing = w,
                                    !.handles = IF e.res = "some" /\ a.op.do \in {"read", "commit", "get", "set"} THEN Append(@, e.some[1]) ELSE @]
                    [] OTHER -> IF e.hurt THEN [a EXCEPT !.op.hurt = TRUE] ELSE a
         IN [st EXCEPT !.act = Put(@, e.p, b)]

\* every value that could be seen during the operations that are going on
Watch(keys, st) ==
    LET see(a) == IF a.op.do # "" /\ KeyOf(a) # 0 THEN [a EXCEPT !.op.seen = @ \union {ValueAt(st, keys[KeyOf(a)])}] ELSE a
    IN [st EXCEPT !.act = [p \in DOMAIN @ |-> see(@[p])],
                  !.pub = @ \union ({st.names[n] : n \in UNION {Below(st, keys[k]) : k \in 1..Len(keys)}} \ {0})]

Step(keys, st, e) == Watch(keys, Users(Locks(Files(st, e), e), e))

\* what the actor's operation may make visible under key k
Promised(a) == IF a.op.do = "commit" THEN IF a.writing THEN {Bytes(a.buf)} ELSE {}
               ELSE IF a.op.do \in {"set", "dset"} /\ a.op.done /\ ~a.op.fails THEN {a.op.val} ELSE {}

Change(keys, st, e, new, k) ==
    LET a == Actor(st, e.p) was == ValueAt(st, keys[k]) is == ValueAt(new, keys[k])
    IN IF was = is THEN ""
       ELSE IF KeyOf(a) # k THEN "an entry changes that nobody asked to change"
       ELSE IF ~Holding(st, e.p, k) THEN "an entry changes without its lock being held"
       ELSE IF is = Absent THEN IF a.op.do = "remove" THEN "" ELSE "an entry vanishes"
       ELSE IF is \notin Promised(a) THEN "an incomplete or wrong value becomes visible"
       ELSE IF a.op.do \in {"set", "dset"} /\ was # Absent /\ ~a.op.hurt THEN "an existing entry is replaced"
       ELSE IF a.op.do # "dset" /\ FlushedAt(new, keys[k]) # is THEN "a value becomes visible before it is flushed"
       ELSE ""

Result(keys, st, e) ==
    LET a == Actor(st, e.p) o == a.op k == KeyOf(a)
        got == Bytes(e.some[1])
        now == IF k = 0 THEN Absent ELSE ValueAt(st, keys[k])
    IN CASE e.res = "panic" -> "a crash"
         [] e.res = "err" ->
              IF o.hurt \/ o.fails \/ (o.do = "remove" /\ Absent \in o.seen) THEN "" ELSE "an operation fails for no reason"
         [] o.do \in {"read", "get"} ->
              IF e.res = "some" THEN IF got \in o.seen THEN "" ELSE "a value is read that was never there"
              ELSE IF Absent \in o.seen \/ o.hurt \/ k = 0 THEN "" ELSE "an entry is missed"
         [] o.do = "set" -> IF o.fails /\ o.ran THEN "a failure is swallowed" ELSE IF e.res = "some" /\ got \in o.seen /\ (o.ran => got = o.val) THEN "" ELSE "the wrong value is returned"
         [] o.do = "dset" -> IF o.fails /\ o.ran THEN "a failure is swallowed" ELSE IF now # Absent THEN "" ELSE "a directory is returned that is not there"
         [] o.do = "commit" -> IF e.res # "some" THEN IF a.writing THEN "the committed value is not returned" ELSE ""
                               ELSE IF got = Bytes(a.buf) /\ now = got THEN "" ELSE "a completed write is not visible"
         [] o.do = "remove" -> IF k = 0 \/ Absent \in o.seen \union {now} THEN "" ELSE "a removed entry is still there"
         [] o.do \in {"lock", "dlock"} -> IF Holding(st, e.p, k) THEN "" ELSE "a lock is not held"
         [] o.do = "lock_if_exists" -> IF (e.res = "some" /\ Holding(st, e.p, k)) \/ (e.res = "none" /\ (Absent \in o.seen \/ o.hurt)) THEN "" ELSE "an entry is missed"
         [] o.do = "reread" -> IF e.some = a.handles THEN "" ELSE "what an open handle reads has changed"
         [] OTHER -> ""

Fault(keys, st, e) ==
    LET new == Step(keys, st, e) a == Actor(st, e.p) k == KeyOf(a)
        changes == {Change(keys, st, e, new, j) : j \in 1..Len(keys)} \ {""}
    IN IF changes # {} THEN CHOOSE c \in changes : TRUE
       ELSE IF \E j \in 1..Len(keys) : Cardinality(Holders(new, j)) > 1 THEN "two holders of one lock"
       ELSE CASE e.ev \in {"write", "truncate"} /\ e.ok /\ e.ino \in st.pub -> "a published file is written to"
              [] e.ev = "open" /\ e.ok /\ e.trunc /\ e.ino \in st.pub -> "a published file is truncated"
              [] e.ev = "open" /\ \E j \in 1..Len(keys) : StartsW(e.path, keys[j]) /\ Holders(st, j) # {} /\ ~Holding(st, e.p, j) -> "an entry is read through somebody else's lock"
              [] e.ev = "blocked" /\ k # 0 /\ ~\E h \in Holders(st, k) : h.p # e.p -> "waiting though nobody holds the key"
              [] e.ev = "blocked" /\ k = 0 -> "waiting outside of any key"
              [] e.ev = "produce" /\ (k = 0 \/ ~Holding(st, e.p, k)) -> "an entry is computed without its lock being held"
              [] e.ev = "produce" /\ ValueAt(st, keys[k]) # Absent /\ ~a.op.hurt -> "an entry is computed though it is there"
              [] e.ev = "produce" /\ a.op.ran -> "an entry is computed twice"
              [] e.ev = "end" -> Result(keys, st, e)
              [] e.ev = "stuck" -> "everybody waits forever"
              [] OTHER -> ""

\* the places of different keys: all different, none inside another, none that looks like another's lock
Separate(ps) ==
    LET S == {ps[i] : i \in 1..Len(ps)}
        inner == UNION {{SubSeq(p, 1, i) : i \in 1..Len(p) - 1} : p \in S}
    IN Cardinality(S) = Len(ps) /\ S \cap inner = {} /\ \A p \in S : p # <<>> /\ p[1] # "tmp"
=============================================================================
