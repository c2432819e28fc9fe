------------------------------- MODULE Judge -------------------------------
(* Checks recorded executions of the real code, one by one, against a specification.

   Each line of the file named by the environment variable CASES is one recorded
   execution: what was given to posy and what posy answered.  `Verdict(c)` is the
   specification's judgement: [ok |-> whether this execution is allowed, want |-> what
   the specification would have allowed instead].  One state per recorded execution; the
   executions are split into chunks so that TLC's workers share the work.              *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANT Verdict(_)
VARIABLES chunk, pos

\* read once (in JInit), kept in a TLC register
JCases == TLCGet(77)
JLen == Len(JCases)
JChunk == atoi(IOEnv.CHUNK)
JChunks == (JLen + JChunk - 1) \div JChunk
JIndex(c, p) == (c - 1) * JChunk + p

JInit == /\ TLCSet(77, ndJsonDeserialize(IOEnv.CASES))
         /\ chunk \in 1..JChunks
         /\ pos = 0

JNext == /\ pos < JChunk
         /\ JIndex(chunk, pos + 1) <= JLen
         /\ pos' = pos + 1
         /\ UNCHANGED chunk

JConforms ==
    \/ pos = 0
    \/ LET i == JIndex(chunk, pos)
           v == Verdict(JCases[i])
       IN v.ok \/ PrintT(<<"BAD", i, v.want, "END">>)
=============================================================================
