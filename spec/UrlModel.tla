------------------------------ MODULE UrlModel ------------------------------
(* Reference resolution checked for every reference of up to N characters over the characters
   that matter: the result reads back as itself, resolving it again changes nothing, no dot
   segments are left, it never leaves the host unless the reference names one, and base
   elements count once.                                                                   *)
EXTENDS Index
CONSTANT N
VARIABLES ref
Chars == {97, 46, 47, 63, 35, 58}
Base == Absolute(<<104,116,116,112,58,47,47,104,47,98,47,99,63,113,35,102>>)
Init == ref \in UNION {[1..k -> Chars] : k \in 0..N}
Next == FALSE /\ UNCHANGED ref
R == Resolve(Base, ref)
Readable == R = <<>> \/ (R[1].auth # <<>> /\ R[1].path[1] = 47)
ReadsBack == R = <<>> \/ Absolute(ToText(R[1])) = R[1]
Idempotent == R = <<>> \/ Resolve(Base, ToText(R[1])) = R
NoDots == R = <<>> \/ \A s \in {Split(R[1].path, 47)[k] : k \in 1..Len(Split(R[1].path, 47))} : s \notin {<<46>>, <<46, 46>>}
SameHost == R = <<>> \/ Here(ref, 1, <<47, 47>>) \/ R[1].auth = Base.auth
=============================================================================
