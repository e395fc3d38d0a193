------------------------------ MODULE TraceBase -----------------------------
(* Trace validation frame.  TRACE names an ndjson file, one line per trace  *)
(* recorded from the real code.  Every trace is one initial state; a trace  *)
(* is rejected iff TLC reaches a deadlock (no specification action explains *)
(* the next event) or violates an invariant; tid and l locate the event.    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
TInit == tid \in 1 .. Len(Traces) /\ l = 1
Ev == Traces[tid].ev[l]
TEvent == l <= Len(Traces[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
TDone == l > Len(Traces[tid].ev) /\ UNCHANGED <<tid, l>>
=============================================================================
