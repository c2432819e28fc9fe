----------------------------- MODULE IndexJudge -----------------------------
EXTENDS Index
VARIABLES chunk, pos
INSTANCE Judge WITH Verdict <- VerdictIndex
=============================================================================
