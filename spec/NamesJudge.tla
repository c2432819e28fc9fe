----------------------------- MODULE NamesJudge -----------------------------
EXTENDS Names
VARIABLES chunk, pos
INSTANCE Judge WITH Verdict <- VerdictNames
=============================================================================
