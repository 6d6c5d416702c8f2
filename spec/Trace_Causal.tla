---- MODULE Trace_Causal ----
EXTENDS CausalJudge, Json, IOUtils
VARIABLE l
TK == INSTANCE TraceKit WITH Failed <- CausalFailed
TraceSpec == TK!TraceSpec
TraceDone == TK!TraceDone
====
