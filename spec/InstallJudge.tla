---- MODULE InstallJudge ----
EXTENDS Install
VARIABLES chunk, pos
INSTANCE Judge WITH Verdict <- VerdictInstall
====
