--------------------------- MODULE Trace_Lifecycle ---------------------------
(* histories of real objects; an answer is a list of integers (scaled numbers) and may differ in its last digit *)
EXTENDS Lifecycle, TLC, Json, IOUtils
VARIABLES l, store, known
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
Abs(x) == IF x < 0 THEN -x ELSE x
Same(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Abs(a[i] - b[i]) <= 1 + Abs(b[i]) \div 100000
Failed(e) ==
    CASE e.k \in {"reset", "new"} -> {}
      [] e.k = "fit" -> (IF e.raised # "" THEN {"fit_raised"} ELSE {}) \cup (IF e.kept THEN {} ELSE {"input_changed"})
      [] e.k = "badfit" -> (IF e.raised = "" THEN {"bad_fit_accepted"} ELSE {}) \cup (IF e.kept THEN {} ELSE {"input_changed"})
      [] e.k = "ask" ->
           LET o == store[e.h]
               rec == Recorded(known, KeyOf(o, e.q))
           IN  (IF e.kept THEN {} ELSE {"input_changed"}) \cup
               IF MustRefuse(o) THEN (IF e.raised = "" THEN {"answers_unfitted"} ELSE {})
               ELSE IF e.raised # "" THEN (IF MayRefuse(o) THEN {} ELSE {"raised"})
               ELSE IF \A r \in rec : Same(e.ans, r.ans) THEN {} ELSE {"depends_on_history"}
Step(e) ==
    CASE e.k = "reset" -> store' = <<>> /\ known' = {}
      [] e.k = "new" -> store' = New(store, e.cfg) /\ UNCHANGED known
      [] e.k = "fit" -> store' = Fit(store, e.h, e.d) /\ UNCHANGED known
      [] e.k = "badfit" -> store' = BadFit(store, e.h) /\ UNCHANGED known
      [] e.k = "ask" -> /\ UNCHANGED store
                        /\ known' = IF e.raised # "" \/ MustRefuse(store[e.h]) \/ Recorded(known, KeyOf(store[e.h], e.q)) # {} THEN known
                                    ELSE known \cup {[key |-> KeyOf(store[e.h], e.q), ans |-> e.ans]}
TraceInit == l = 1 /\ store = <<>> /\ known = {}
TraceNext == /\ l <= Len(Trace)
             /\ LET bad == Failed(Trace[l]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"FAIL", l, bad>>)
             /\ Step(Trace[l])
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, store, known>>
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
