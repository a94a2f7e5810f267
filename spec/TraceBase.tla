----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Common part of all trace specifications.  Trace is the recorded trace   *)
(* (one JSON object per event).  A trace specification consumes one event  *)
(* per step; an event the specification does not allow is reported and     *)
(* counted, and the postcondition rejects the trace.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Rejected == 1                      \* TLC register counting rejected events
ResetRegisters == TLCSet(Rejected, 0)
Report(l) == PrintT(<<"REJECT", l>>) /\ TLCSet(Rejected, TLCGet(Rejected) + 1)
\* Judge(l, ok): true in any case, so that the rest of the trace is examined too
Judge(l, ok) == IF ok THEN TRUE ELSE Report(l)
TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ TLCGet(Rejected) = 0
Has(e, f) == f \in DOMAIN e
AllIx(s, P(_)) == \A i \in 1 .. Len(s) : P(i)
=============================================================================
