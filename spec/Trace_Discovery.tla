---- MODULE Trace_Discovery ----
EXTENDS DiscoveryJudge, Json, IOUtils
VARIABLE l
K == INSTANCE TraceKit WITH Failed <- DiscoveryFailed
TraceSpec == K!TraceSpec
TraceDone == K!TraceDone
====
