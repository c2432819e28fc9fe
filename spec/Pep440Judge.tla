---- MODULE Pep440Judge ----
(* Recorded answers of posy's version and specifier code, judged by PEP 440. *)
EXTENDS Pep440
VARIABLES chunk, pos
INSTANCE Judge WITH Verdict <- Verdict440
====
