------------------------------- MODULE TraceIO -------------------------------
(* The recorded trace and the facts it refers to, one JSON record per line.   *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.VTRACE)
Facts == ndJsonDeserialize(IOEnv.VFACTS)
=============================================================================
