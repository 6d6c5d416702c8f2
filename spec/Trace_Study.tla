---- MODULE Trace_Study ----
EXTENDS StudyJudge, Json, IOUtils
VARIABLE l
K == INSTANCE TraceKit WITH Failed <- StudyFailed
TraceSpec == K!TraceSpec
TraceDone == K!TraceDone
====
