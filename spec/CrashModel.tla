------------------------------- MODULE CrashModel -------------------------------
(* The design that the rules of Crash.tla ask for: items get installed one after the other - look whether it's there; if not,
   download it (a file in the cache, written aside and renamed), unpack it piece by piece into a directory of its own, finish
   that, rename it into place - while the process may die before every step and another one starts over.  Flaw picks wrong designs:
   inplace: unpacked where it belongs; late: finished only after the rename; again: unpacked again although it's there;
   torn: the download is written where it belongs      *)
EXTENDS Crash
CONSTANTS NItems, Pieces, Crashes, Flaw
VARIABLES pc, item, tmp, disk, cache, died, ino, prev
vars == <<pc, item, tmp, disk, cache, died, ino, prev>>
Items == 1..NItems
\* content: the number of pieces, one more when finished; 0: not there.  A download has two parts.
Full == Pieces + 1
SeenNow == {[name |-> <<"entry", i>>, what |-> <<"entry", i>>, content |-> disk[i][1], ino |-> disk[i][2]] : i \in {i \in Items : disk[i][1] > 0}}
           \union {[name |-> <<"file", i>>, what |-> <<"file", i>>, content |-> cache[i], ino |-> 0] : i \in {i \in Items : cache[i] > 0}}
Ref == {[what |-> <<"entry", i>>, content |-> Full] : i \in Items} \union {[what |-> <<"file", i>>, content |-> 2] : i \in Items}
Init == pc = "look" /\ item = 1 /\ tmp = 0 /\ disk = [i \in Items |-> <<0, 0>>] /\ cache = [i \in Items |-> 0] /\ died = 0 /\ ino = 1 /\ prev = {}
Same == UNCHANGED <<died, ino>> /\ prev' = SeenNow
Put(n) == disk' = [disk EXCEPT ![item] = <<n, IF @[2] = 0 THEN ino ELSE @[2]>>]
Look == /\ pc = "look" /\ item <= NItems /\ Same /\ UNCHANGED <<disk, cache>>
        /\ IF disk[item][1] > 0 /\ Flaw # "again" THEN pc' = "look" /\ item' = item + 1 /\ tmp' = 0
           ELSE pc' = "fetch" /\ item' = item /\ tmp' = 0
Fetch == /\ pc = "fetch" /\ Same /\ UNCHANGED <<item, disk>>
         /\ IF cache[item] > 0 THEN pc' = "unpack" /\ tmp' = 0 /\ cache' = cache
            ELSE IF tmp < 2 /\ Flaw # "torn" THEN tmp' = tmp + 1 /\ UNCHANGED <<pc, cache>>
            ELSE IF Flaw = "torn" THEN cache' = [cache EXCEPT ![item] = 1] /\ pc' = "fetch2" /\ tmp' = 0
            ELSE cache' = [cache EXCEPT ![item] = 2] /\ pc' = "unpack" /\ tmp' = 0
Fetch2 == pc = "fetch2" /\ Same /\ cache' = [cache EXCEPT ![item] = 2] /\ pc' = "unpack" /\ UNCHANGED <<item, disk, tmp>>
Unpack == /\ pc = "unpack" /\ Same /\ UNCHANGED <<item, cache>>
          /\ LET have == IF Flaw = "inplace" THEN disk[item][1] ELSE tmp
             IN IF have < Pieces THEN /\ pc' = pc
                                      /\ IF Flaw = "inplace" THEN Put(have + 1) /\ tmp' = tmp ELSE tmp' = tmp + 1 /\ disk' = disk
                ELSE pc' = "finish" /\ UNCHANGED <<tmp, disk>>
Finish == /\ pc = "finish" /\ Same /\ UNCHANGED <<item, cache>> /\ pc' = "rename"
          /\ IF Flaw = "inplace" THEN Put(Full) /\ tmp' = tmp ELSE disk' = disk /\ tmp' = IF Flaw = "late" THEN tmp ELSE tmp + 1
Rename == /\ pc = "rename" /\ prev' = SeenNow /\ UNCHANGED <<item, cache, died>> /\ tmp' = 0 /\ ino' = ino + 1
          /\ disk' = IF Flaw = "inplace" THEN disk ELSE [disk EXCEPT ![item] = <<tmp, ino>>]
          /\ pc' = IF Flaw = "late" THEN "after" ELSE "look"
After == pc = "after" /\ Same /\ disk' = [disk EXCEPT ![item][1] = Full] /\ pc' = "look" /\ UNCHANGED <<item, cache, tmp>>
Die == /\ died < Crashes /\ pc # "over" /\ died' = died + 1 /\ pc' = "look" /\ item' = 1 /\ tmp' = 0 /\ prev' = SeenNow /\ UNCHANGED <<disk, cache, ino>>
Over == pc = "look" /\ item > NItems /\ pc' = "over" /\ Same /\ UNCHANGED <<item, tmp, disk, cache>>
Next == Look \/ Fetch \/ Fetch2 \/ Unpack \/ Finish \/ Rename \/ After \/ Die \/ Over
Spec == Init /\ [][Next]_vars /\ WF_vars(Look \/ Fetch \/ Fetch2 \/ Unpack \/ Finish \/ Rename \/ After \/ Over)
AllOrNothing == Whole(SeenNow, Ref)
Lasting == Stays(prev, SeenNow)
Installed == pc = "over" => Complete(SeenNow, {<<"entry", i>> : i \in Items})
Ends == <>(pc = "over")
=================================================================================
