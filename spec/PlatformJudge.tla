---------------------------- MODULE PlatformJudge ----------------------------
EXTENDS Platform
VARIABLES chunk, pos
INSTANCE Judge WITH Verdict <- VerdictPlatform
=============================================================================
