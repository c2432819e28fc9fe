---- MODULE TogetherJudge ----
EXTENDS Crash
VARIABLES chunk, pos
INSTANCE Judge WITH Verdict <- VerdictTogether
====
