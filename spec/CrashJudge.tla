---- MODULE CrashJudge ----
EXTENDS Crash
VARIABLES chunk, pos
INSTANCE Judge WITH Verdict <- VerdictCrash
====
