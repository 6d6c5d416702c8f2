---- MODULE Trace_Policy ----
EXTENDS PolicyJudge, Json, IOUtils
VARIABLE l
TK == INSTANCE TraceKit WITH Failed <- PolicyFailed
TraceSpec == TK!TraceSpec
TraceDone == TK!TraceDone
====
