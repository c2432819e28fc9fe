----------------------------- MODULE NamesModel -----------------------------
(* The naming conventions checked against themselves for every short text: the normal form
   of a name is a name, is its own normal form, and a file name built from parts is read as
   those parts.                                                                           *)
EXTENDS Names
CONSTANT N
VARIABLES s, ext
Chars == {97, 66, 49, 45, 95, 46}
Init == s \in UNION {[1..k -> Chars] : k \in 1..N} /\ ext \in {"whl", "pybi", "zip", "tar"}
Next == FALSE /\ UNCHANGED <<s, ext>>

NormalFormsAreNames == IsName(s) => /\ IsName(Norm(s)) /\ Norm(Norm(s)) = Norm(s)
                                    /\ \A i \in 1..Len(Norm(s)) : ~IsUpper(Norm(s)[i]) /\ Norm(s)[i] \notin {46, 95}
V1 == <<49, 46, 48>>
Under(n) == [i \in 1..Len(n) |-> IF n[i] = 45 THEN 95 ELSE n[i]]
File == CASE ext = "whl" -> Under(s) \o <<45>> \o V1 \o <<45,97,45,98,45,99>> \o Whl
          [] ext = "pybi" -> Under(s) \o <<45>> \o V1 \o <<45,97,46,98>> \o PybiExt
          [] ext = "zip" -> s \o <<45>> \o V1 \o Zip
          [] OTHER -> s \o <<45>> \o V1 \o TarGz
FilesReadBack == LET f == ParseFile(File)
                 IN IF ~IsName(s) THEN f = <<>>
                    ELSE f # <<>> /\ f[1].dist = Norm(s) /\ f[1].v = ParseVersion(V1)[1] /\ f[1].sure
                         /\ f[1].kind = (CASE ext = "whl" -> "wheel" [] ext = "tar" -> "tar.gz" [] OTHER -> ext)
=============================================================================
