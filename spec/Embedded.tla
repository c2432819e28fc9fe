------------------------------- MODULE Embedded -------------------------------
(* Metadata read from files: it must be about what the file's name says - in the metadata itself, and in the name of
   the directory it's in.                                                                                    *)
EXTENDS Text
Version(v) == ParseVersion(v)
Agree(a, b) == /\ IsName(b[1]) /\ Norm(a[1]) = Norm(b[1])
               /\ Version(b[2]) # <<>> /\ Cmp(Version(a[2])[1], Version(b[2])[1]) = 0
\* x.says: <<name, version>> in the file's name; x.is: in the metadata; x.dir: in the directory's name; x.ok: accepted
VerdictEmbedded(x) == LET want == Agree(x.says, x.is) /\ Agree(x.says, x.dir) IN [ok |-> x.ok = want, want |-> want]
================================================================================
