---- MODULE Trace_Uplift ----
EXTENDS UpliftJudge, Json, IOUtils
VARIABLE l
K == INSTANCE TraceKit WITH Failed <- UpliftFailed
TraceSpec == K!TraceSpec
TraceDone == K!TraceDone
====
