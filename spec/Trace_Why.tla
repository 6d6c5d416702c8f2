---- MODULE Trace_Why ----
EXTENDS WhyJudge, Json, IOUtils
VARIABLE l
TK == INSTANCE TraceKit WITH Failed <- WhyFailed
TraceSpec == TK!TraceSpec
TraceDone == TK!TraceDone
====
