---- MODULE Trace_Identify ----
EXTENDS IdentifyJudge, Json, IOUtils
VARIABLE l
K == INSTANCE TraceKit WITH Failed <- IdentifyFailed
TraceSpec == K!TraceSpec
TraceDone == K!TraceDone
====
