----------------------------- MODULE TraceInput -----------------------------
EXTENDS Json, IOUtils, Sequences
TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)
N == Len(Trace)
=============================================================================
