---- MODULE Trace_Bayes ----
EXTENDS BayesJudge, Json, IOUtils
VARIABLE l
TK == INSTANCE TraceKit WITH Failed <- BayesFailed
TraceSpec == TK!TraceSpec
TraceDone == TK!TraceDone
====
