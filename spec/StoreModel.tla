----------------------------- MODULE StoreModel -----------------------------
(* Flaw # "none" selects a wrong design, which must break a rule.
   The design of posy's file store and directory store, call by call: lock file, look,
   temporary file, flush, rename. Actors pick jobs freely, may crash between any two calls
   (also inside a write) and start again. Every event must obey Store.tla's rules.         *)
EXTENDS Store, Json
CONSTANTS Actors, NKeys, Starts, Crashes, Kinds, Record, Flaw
VARIABLES st, pc, job, ino, starts, crashes, why, hist
vars == <<st, pc, job, ino, starts, crashes, why, hist>>

Key(k) == <<"k", ToString(k)>>
LockP(k) == <<"l", ToString(k)>>
Tmp(p) == IF Flaw = "sharedtmp" THEN <<"t">> ELSE IF Flaw = "inplace" THEN Key(job[p].k) ELSE <<"t", ToString(p)>>
Keys == [k \in 1..NKeys |-> Key(k)]

E(p, ev) == [Ev0 EXCEPT !.ev = ev, !.p = p, !.q = p]
RECURSIVE Fold(_, _, _)
Fold(s, w, es) == IF es = <<>> THEN <<s, w>>
                  ELSE LET f == Fault(Keys, s, es[1]) IN Fold(Step(Keys, s, es[1]), IF w = "" THEN f ELSE w, Tail(es))
DoK(p, what, k, es) == LET r == Fold(st, why, es)
             IN st' = r[1] /\ why' = r[2] /\ hist' = IF Record THEN Append(hist, <<p, what, k>>) ELSE hist
Do(p, what, es) == DoK(p, what, job[p].k, es)
To(p, l) == pc' = [pc EXCEPT ![p] = l]

Init == /\ st = [Init0 EXCEPT !.names = <<>>]
        /\ pc = [p \in Actors |-> "idle"] /\ job = [p \in Actors |-> [kind |-> "", k |-> 1]]
        /\ ino = 0 /\ starts = [p \in Actors |-> 0] /\ crashes = 0 /\ why = "" /\ hist = <<>>

Val(p) == IF job[p].kind \in {"dset", "dsetfail"} THEN {<< <<>>, DirMark >>, << <<"f">>, <<p>> >>} ELSE Bytes(<<p, p>>)
StartEv(p, j) ==
    LET v == IF j.kind \in {"dset", "dsetfail"} THEN {<< <<>>, DirMark >>, << <<"f">>, <<p>> >>} ELSE Bytes(<<p, p>>)
        d == CASE j.kind \in {"set", "setfail"} -> "set" [] j.kind \in {"dset", "dsetfail"} -> "dset" [] j.kind = "get" -> "get" [] OTHER -> "lock"
    IN [E(p, "start") EXCEPT !.do = d, !.k = j.k, !.val = v, !.fails = j.kind \in {"setfail", "dsetfail"}]
End(p, res, some) == [E(p, "end") EXCEPT !.res = res, !.some = some]
Start(p, do, data) == [E(p, "start") EXCEPT !.do = do, !.data = data]

Begin(p) == /\ pc[p] = "idle" /\ starts[p] < Starts
            /\ \E kind \in Kinds, k \in 1..NKeys :
                 LET j == [kind |-> kind, k |-> k]
                 IN job' = [job EXCEPT ![p] = j] /\ DoK(p, kind, k, <<StartEv(p, j)>>)
            /\ starts' = [starts EXCEPT ![p] = @ + 1] /\ To(p, "openlock") /\ UNCHANGED <<ino, crashes>>

K(p) == job[p].k
Dirs(p) == job[p].kind \in {"dset", "dsetfail"}
OpenLock(p) ==
    /\ pc[p] = "openlock"
    /\ IF job[p].kind = "get" /\ LockP(K(p)) \notin DOMAIN st.names
       THEN Do(p, "miss", <<[E(p, "open") EXCEPT !.ok = FALSE, !.path = LockP(K(p))], End(p, "none", <<>>)>>) /\ To(p, "idle") /\ UNCHANGED ino
       ELSE LET new == LockP(K(p)) \notin DOMAIN st.names
            IN /\ ino' = IF new THEN ino + 1 ELSE ino
               /\ Do(p, "openlock", <<[E(p, "open") EXCEPT !.path = LockP(K(p)), !.creat = TRUE, !.fd = 1, !.ino = IF new THEN ino + 1 ELSE st.names[LockP(K(p))]]>>)
               /\ To(p, "flock")
    /\ UNCHANGED <<job, starts, crashes>>
Flock(p) ==
    /\ pc[p] = "flock"
    /\ Holders(st, K(p)) = {} \/ Flaw = "nolock"     \* the operating system's part
    /\ Do(p, "lock", <<[E(p, "lock") EXCEPT !.path = LockP(K(p)), !.fd = 1]>>
             \o IF job[p].kind \in {"put", "remove", "abandon"} THEN <<End(p, "ok", <<>>)>> ELSE <<>>)
    /\ To(p, CASE job[p].kind \in {"set", "setfail", "get", "dset", "dsetfail"} -> "look" [] job[p].kind = "remove" -> "remove" [] OTHER -> "tmp")
    /\ UNCHANGED <<job, ino, starts, crashes>>
Look(p) ==
    /\ pc[p] = "look"
    /\ LET there == Key(K(p)) \in DOMAIN st.names
       IN IF Dirs(p) THEN Do(p, "look", <<>>) /\ To(p, IF there THEN "close" ELSE "tmp")
          ELSE /\ Do(p, "look", <<[E(p, "open") EXCEPT !.ok = there, !.path = Key(K(p)), !.fd = 2, !.ino = IF there THEN st.names[Key(K(p))] ELSE 0]>>)
               /\ To(p, IF there THEN "closesome" ELSE IF job[p].kind = "get" THEN "closenone" ELSE "tmp")
    /\ UNCHANGED <<job, ino, starts, crashes>>
MkTmp(p) ==
    /\ pc[p] = "tmp" /\ ino' = ino + 1
    /\ LET put == job[p].kind \in {"put", "abandon"}
           mk == IF Dirs(p) THEN [E(p, "mkdir") EXCEPT !.path = Tmp(p)] ELSE [E(p, "open") EXCEPT !.path = Tmp(p), !.creat = TRUE, !.fd = 3, !.ino = ino + 1]
       IN Do(p, "tmp", IF put THEN <<Start(p, "begin", <<>>), mk, End(p, "ok", <<>>), Start(p, "write", <<p, p>>)>> ELSE <<mk, E(p, "produce")>>)
    /\ To(p, "w1") /\ UNCHANGED <<job, starts, crashes>>
Ino(p) == IF Dirs(p) THEN ino + 1 ELSE st.names[Tmp(p)]
W1(p) == /\ pc[p] = "w1"
         /\ IF Dirs(p) THEN /\ Do(p, "write", <<[E(p, "open") EXCEPT !.path = Tmp(p) \o <<"f">>, !.creat = TRUE, !.fd = 4, !.ino = ino + 1],
                                                [E(p, "write") EXCEPT !.ino = ino + 1, !.data = <<p>>], [E(p, "close") EXCEPT !.fd = 4]>>)
                            /\ ino' = ino + 1
            ELSE Do(p, "write", <<[E(p, "write") EXCEPT !.ino = st.names[Tmp(p)], !.data = <<p>>]>>) /\ UNCHANGED ino
         /\ To(p, IF job[p].kind \in {"setfail", "dsetfail"} THEN "fail" ELSE IF Dirs(p) THEN "produced" ELSE "w2") /\ UNCHANGED <<job, starts, crashes>>
W2(p) == /\ pc[p] = "w2" /\ Do(p, "write", <<[E(p, "write") EXCEPT !.ino = st.names[Tmp(p)], !.at = 1, !.data = <<p>>]>>
                                \o IF job[p].kind \in {"put", "abandon"} THEN <<End(p, "ok", <<>>)>> ELSE <<>>)
         /\ To(p, IF job[p].kind = "abandon" THEN "abandon" ELSE "produced") /\ UNCHANGED <<job, ino, starts, crashes>>
Gone(p) == IF Dirs(p) THEN <<[E(p, "unlink") EXCEPT !.path = Tmp(p) \o <<"f">>], [E(p, "rmdir") EXCEPT !.path = Tmp(p)]>> ELSE <<[E(p, "unlink") EXCEPT !.path = Tmp(p)]>>
Fail(p) == /\ pc[p] = "fail" /\ Do(p, "fail", Gone(p)) /\ To(p, "closeerr") /\ UNCHANGED <<job, ino, starts, crashes>>
Abandon(p) == /\ pc[p] = "abandon" /\ Do(p, "fail", <<Start(p, "abandon", <<>>)>> \o Gone(p) \o <<End(p, "ok", <<>>)>>) /\ To(p, "unlock") /\ UNCHANGED <<job, ino, starts, crashes>>
Produced(p) == /\ pc[p] = "produced"
               /\ Do(p, "sync", (IF job[p].kind = "put" THEN <<Start(p, "commit", <<>>)>> ELSE <<E(p, "produced")>>)
                        \o IF Dirs(p) \/ Flaw = "nosync" THEN <<>> ELSE <<[E(p, "fsync") EXCEPT !.ino = st.names[Tmp(p)]]>>)
               /\ To(p, "rename") /\ UNCHANGED <<job, ino, starts, crashes>>
Rename(p) == /\ pc[p] = "rename"
             /\ Do(p, "rename", <<[E(p, "rename") EXCEPT !.path = Tmp(p), !.path2 = Key(K(p))]>>
                      \o IF job[p].kind = "put" THEN <<End(p, "some", << <<p, p>> >>)>> ELSE <<>>)
             /\ To(p, IF job[p].kind = "put" THEN "unlock" ELSE IF Dirs(p) THEN "close" ELSE "closesome") /\ UNCHANGED <<job, ino, starts, crashes>>
Remove(p) == /\ pc[p] = "remove"
             /\ LET there == Key(K(p)) \in DOMAIN st.names
                IN Do(p, "remove", <<Start(p, "remove", <<>>), [E(p, "unlink") EXCEPT !.ok = there, !.path = Key(K(p))], [E(p, "close") EXCEPT !.fd = 1], End(p, IF there THEN "ok" ELSE "err", <<>>)>>)
             /\ To(p, "idle") /\ UNCHANGED <<job, ino, starts, crashes>>
Unlock(p) == /\ pc[p] = "unlock" /\ Do(p, "unlock", <<Start(p, "unlock", <<>>), [E(p, "close") EXCEPT !.fd = 1], End(p, "ok", <<>>)>>)
             /\ To(p, "idle") /\ UNCHANGED <<job, ino, starts, crashes>>
Now(p) == (CHOOSE x \in ValueAt(st, Key(K(p))) : x[1] = <<>>)[2]
Close(p) == /\ pc[p] \in {"closesome", "closenone", "closeerr", "close"}
            /\ Do(p, "unlock", <<[E(p, "close") EXCEPT !.fd = 1],
                    CASE pc[p] = "closesome" -> End(p, "some", <<Now(p)>>) [] pc[p] = "closenone" -> End(p, "none", <<>>) [] pc[p] = "close" -> End(p, "ok", <<>>) [] OTHER -> End(p, "err", <<>>)>>)
            /\ To(p, "idle") /\ UNCHANGED <<job, ino, starts, crashes>>
Crash(p) == /\ pc[p] # "idle" /\ crashes < Crashes /\ crashes' = crashes + 1
            /\ Do(p, "crash", <<E(p, "death")>>) /\ To(p, "idle") /\ UNCHANGED <<job, ino, starts>>

Moves(p) == Begin(p) \/ OpenLock(p) \/ Flock(p) \/ Look(p) \/ MkTmp(p) \/ W1(p) \/ W2(p) \/ Fail(p) \/ Abandon(p) \/ Produced(p) \/ Rename(p) \/ Remove(p) \/ Unlock(p) \/ Close(p)
Done == \A p \in Actors : pc[p] = "idle" /\ starts[p] = Starts
Next == (\E p \in Actors : Moves(p) \/ Crash(p)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A p \in Actors : WF_vars(Moves(p))

Obeys == why = ""
\* whoever wants something gets it
Served == \A p \in Actors : (pc[p] # "idle") ~> (pc[p] = "idle")
\* for generating behaviours
Tell == (Record /\ Done) => PrintT(<<"TRACE", ToJson(hist), "END">>)
Perms == Permutations(Actors)
=============================================================================
