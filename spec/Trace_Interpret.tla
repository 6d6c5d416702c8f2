---- MODULE Trace_Interpret ----
EXTENDS InterpretJudge, Json, IOUtils
VARIABLE l
TK == INSTANCE TraceKit WITH Failed <- InterpretFailed
TraceSpec == TK!TraceSpec
TraceDone == TK!TraceDone
====
