---- MODULE Trace_Forest ----
EXTENDS ForestJudge, Json, IOUtils
VARIABLE l
TK == INSTANCE TraceKit WITH Failed <- ForestFailed
TraceSpec == TK!TraceSpec
TraceDone == TK!TraceDone
====
