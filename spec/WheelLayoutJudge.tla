-------------------------- MODULE WheelLayoutJudge --------------------------
EXTENDS WheelLayout
VARIABLES chunk, pos
INSTANCE Judge WITH Verdict <- VerdictLayout
=============================================================================
