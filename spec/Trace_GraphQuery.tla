---- MODULE Trace_GraphQuery ----
EXTENDS GraphQuery, Json, IOUtils
VARIABLE l
K == INSTANCE TraceKit WITH Failed <- QueryFailed
TraceSpec == K!TraceSpec
TraceDone == K!TraceDone
====
