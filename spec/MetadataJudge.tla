---------------------------- MODULE MetadataJudge ----------------------------
EXTENDS Metadata
VARIABLES chunk, pos
INSTANCE Judge WITH Verdict <- VerdictMetadata
=============================================================================
