------------------------------ MODULE TraceKit ------------------------------
(* Judging recorded executions one by one.  Every line of the trace is an    *)
(* event recorded from the real code; Failed(e) is the set of the names of   *)
(* the clauses of the specification which e breaks.  The verdict is total:   *)
(* each event is consumed, a broken one is reported with its clauses.        *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANT Failed(_)

VARIABLE l

Trace == ndJsonDeserialize(IOEnv.VP_TRACE)

TraceInit == l = 1

TraceNext ==
    /\ l <= Len(Trace)
    /\ LET bad == Failed(Trace[l])
       IN  IF bad = {} THEN TRUE ELSE PrintT(<<"FAIL", l, bad>>)
    /\ l' = l + 1

TraceSpec == TraceInit /\ [][TraceNext]_l

(* every event has been consumed *)
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
