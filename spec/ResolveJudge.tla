---- MODULE ResolveJudge ----
EXTENDS Resolve
VARIABLES chunk, pos
INSTANCE Judge WITH Verdict <- VerdictResolve
====
