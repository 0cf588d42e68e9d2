------------------------------ MODULE TraceIO ------------------------------
(* Reading recorded executions.  One event per line; an event carries the    *)
(* operation, its arguments and, under "res", what the code returned.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunk == atoi(IOEnv.CHUNK)

(* the fields of the expectation that the observed record lacks or contradicts,
   together with observed fields nothing accounts for *)
Mismatch(exp, res) ==
    {k \in DOMAIN exp : k \notin DOMAIN res} \cup
    {k \in DOMAIN res : k \notin DOMAIN exp} \cup
    {k \in DOMAIN exp \cap DOMAIN res : res[k] # exp[k]}

ChunkStarts == {i \in 1..Len(Trace) : (i - 1) % Chunk = 0}
ChunkEnd(i) == LET e == i + Chunk - 1 IN IF e > Len(Trace) THEN Len(Trace) ELSE e
=============================================================================
