---------------------------- MODULE PlatformModel ----------------------------
(* The definition of platform compatibility checked for what it must satisfy, for every pair
   of tags of a universe: reading and writing tags agree, a platform's own tag is its best,
   what runs on an older level runs on a newer one, and ranks tell tags apart.            *)
EXTENDS Platform
VARIABLES c, t
Lv(n, a) == <<95>> \o Digits(n) \o <<95>> \o a
MacArchSet == {X86, Arm, Uni2, Intel, Fat3}
Universe ==
    {ManyL \o <<95,50>> \o Lv(n, a) : n \in {0, 4, 5, 6, 12, 17, 18}, a \in {X86, Arm}} \cup {MuslL \o <<95,49>> \o Lv(n, X86) : n \in 0..2}
    \cup {ManyL \o Legacy[k][1] \o <<95>> \o a : k \in 1..3, a \in {X86, Arm}}
    \cup {MacX \o <<95>> \o Digits(m) \o Lv(n, a) : m \in {10}, n \in {0, 9, 15, 16}, a \in MacArchSet} \cup {MacX \o <<95>> \o Digits(m) \o Lv(n, a) : m \in {11, 12}, n \in {0, 1}, a \in MacArchSet}
    \cup {<<119,105,110>>, <<97,110,121>>}
Init == c \in Universe /\ t \in Universe
Next == FALSE /\ UNCHANGED <<c, t>>
Std(x) == Plat(x).kind # "mac" \/ Plat(x).major = 10 \/ Plat(x).minor = 0
Std16(x) == Plat(x).kind # "mac" \/ Plat(x).major # 10 \/ Plat(x).minor < 16

ReadBack == Write(Plat(t)) = t
CoreIsBest == Std(c) => PlatRank(c, c) # <<>> /\ (PlatRank(c, t) # <<>> /\ t # c => (LessR(PlatRank(c, c), PlatRank(c, t)) \/ [Plat(c) EXCEPT !.alias = 0] = [Plat(t) EXCEPT !.alias = 0]))
OlderRunsOnNewer == (Std(t) /\ Std16(c) /\ Std16(t) /\ PlatRank(c, t) # <<>>) => \A s \in Universe : Std16(s) /\ PlatRank(t, s) # <<>> => PlatRank(c, s) # <<>>
RanksDecide == \A s \in Universe : PlatRank(c, t) # <<>> /\ PlatRank(c, s) = PlatRank(c, t) => s = t
=============================================================================
