---- MODULE EnvJudge ----
EXTENDS Env
VARIABLES chunk, pos
INSTANCE Judge WITH Verdict <- VerdictEnv
====
