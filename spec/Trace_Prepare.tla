---- MODULE Trace_Prepare ----
EXTENDS PrepareJudge, Json, IOUtils
VARIABLE l
TK == INSTANCE TraceKit WITH Failed <- PrepareFailed
TraceSpec == TK!TraceSpec
TraceDone == TK!TraceDone
====
