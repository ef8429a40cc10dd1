------------------------------- MODULE TraceIO -------------------------------
(* Reading a recorded trace and accepting it.                                  *)
(* Every <Spec>Trace module EXTENDS its design module and this one, consumes   *)
(* one line of trace.ndjson per step and is accepted iff all lines are used.   *)
EXTENDS Json, TLC, Sequences, Naturals
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].event = e /\ l' = l + 1
TraceAccepted ==
    LET d == TLCGet("stats").diameter - 1
    IN  /\ PrintT(<<"TRACE", d, Len(Trace)>>)
        /\ d = Len(Trace)
=============================================================================
