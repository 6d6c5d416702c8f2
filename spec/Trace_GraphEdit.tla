--------------------------- MODULE Trace_GraphEdit ---------------------------
(* Histories of editing operations recorded from the real class, judged step  *)
(* by step against GraphEdit.  After every call the states of all live graphs *)
(* are logged in three views (parents table, mixed graph, observed graph).    *)
EXTENDS GraphEdit, Json, IOUtils

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)

ObsGraphs(e) == [h \in DOMAIN e.st |-> GraphOf(e.st[h])]

(* the store the specification expects after event e *)
Expected(e) ==
    CASE e.k = "reset"  -> <<>>
      [] e.k = "create" -> Append(store, GraphOf(e.g))
      [] e.k = "op"     -> IF e.new THEN Append(store, Apply(store[e.h], e.o))
                           ELSE [store EXCEPT ![e.h] = Apply(@, e.o)]

ViewsAgree(s) == /\ Range(s.dagV) = Range(s.V) /\ Range(s.obsV) = Range(s.V)
                 /\ Edges(s.dagE) = Edges(s.E) /\ Edges(s.obsE) = Edges(s.E)
                 /\ Len(s.dagE) = Len(s.E) /\ Len(s.obsE) = Len(s.E)
                 /\ Len(s.E) = Cardinality(Edges(s.E)) /\ Len(s.B) = Cardinality(Arcs(s.B))

Failed(e) ==
    IF e.k = "reset" THEN {}
    ELSE IF e.raised # "" THEN {"raised"}
    ELSE LET x == Expected(e)
             o == ObsGraphs(e)
             target == IF e.k = "create" \/ e.new THEN Len(x) ELSE e.h
         IN   (IF e.k = "op" /\ ~Enabled(store[e.h], e.o) THEN {"driver_not_enabled"} ELSE {})
         \cup (IF Len(o) # Len(x) THEN {"store"} ELSE
                   (IF o[target] # x[target] THEN {"result"} ELSE {})
              \cup (IF \E h \in DOMAIN x : h # target /\ o[h] # x[h] THEN {"other_graph_changed"} ELSE {}))
         \cup (IF \E h \in DOMAIN o : ~ViewsAgree(e.st[h]) THEN {"views_disagree"} ELSE {})
         \cup (IF e.caller # "" THEN {"caller_data_changed"} ELSE {})

TraceInit == l = 1 /\ store = <<>>
TraceNext ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l]
           bad == Failed(e)
       IN  /\ IF bad = {} THEN TRUE ELSE PrintT(<<"FAIL", l, bad>>)
           \* continue from what was observed, so that the rest of the history is judged, too
           /\ store' = IF bad = {} THEN Expected(e) ELSE IF e.k = "reset" THEN <<>> ELSE ObsGraphs(e)
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, store>>
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
