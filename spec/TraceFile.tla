----------------------------- MODULE TraceFile -----------------------------
(* The sessions of the trace file named by the environment variable TRACE *)
EXTENDS Sequences, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
=============================================================================
