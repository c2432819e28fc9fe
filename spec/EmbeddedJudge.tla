---- MODULE EmbeddedJudge ----
EXTENDS Embedded
VARIABLES chunk, pos
INSTANCE Judge WITH Verdict <- VerdictEmbedded
====
