---- MODULE Trace_Meta ----
EXTENDS MetaJudge, Json, IOUtils
VARIABLE l
K == INSTANCE TraceKit WITH Failed <- MetaFailed
TraceSpec == K!TraceSpec
TraceDone == K!TraceDone
====
