----------------------------- MODULE PathsJudge -----------------------------
EXTENDS Paths
VARIABLES chunk, pos
INSTANCE Judge WITH Verdict <- VerdictPaths
=============================================================================
