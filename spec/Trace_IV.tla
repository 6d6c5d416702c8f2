---- MODULE Trace_IV ----
EXTENDS IVJudge, Json, IOUtils
VARIABLE l
TK == INSTANCE TraceKit WITH Failed <- IVFailed
TraceSpec == TK!TraceSpec
TraceDone == TK!TraceDone
====
