------------------------------ MODULE GraphEdit ------------------------------
(* Editing causal graphs.  The state is a store of graphs (handles -> graph); *)
(* every editing operation names the graph it is applied to and either        *)
(* changes it in place or leaves it as it is and returns a new graph.  What   *)
(* is not named does not change: graphs never share structure.                *)
EXTENDS Graph

Edges(x) == {<<p[1], p[2]>> : p \in Range(x)}
Arcs(x)  == {{p[1], p[2]} : p \in Range(x)}

(* the graph an operation makes of g: op.op names it, op.x lists its nodes, op.p its pairs *)
Apply(g, op) ==
    CASE op.op = "add_nodes"     -> [g EXCEPT !.V = @ \cup Range(op.x)]
      [] op.op = "add_edges"     -> [g EXCEPT !.E = @ \cup Edges(op.p)]
      [] op.op = "add_arcs"      -> [g EXCEPT !.B = @ \cup Arcs(op.p)]
      [] op.op = "remove_nodes"  -> Sub(g, g.V \ Range(op.x))
      [] op.op = "remove_edges"  -> [g EXCEPT !.E = @ \ Edges(op.p)]
      [] op.op = "remove_arcs"   -> [g EXCEPT !.B = @ \ Arcs(op.p)]
      [] op.op = "sub_graph"     -> Sub(g, Range(op.x))
      [] op.op = "cut_in"        -> CutIn(g, Range(op.x))
      [] op.op = "cut_out"       -> CutOut(g, Range(op.x))

Enabled(g, op) ==
    CASE op.op = "add_nodes"     -> TRUE
      [] op.op = "add_edges"     -> \A e \in Edges(op.p) : e[1] # e[2] /\ {e[1], e[2]} \subseteq g.V
      [] op.op = "add_arcs"      -> \A b \in Arcs(op.p) : Cardinality(b) = 2 /\ b \subseteq g.V
      [] op.op = "remove_nodes"  -> Range(op.x) \subseteq g.V
      [] op.op = "remove_edges"  -> Edges(op.p) \subseteq g.E
      [] op.op = "remove_arcs"   -> Arcs(op.p) \subseteq g.B
      [] OTHER                   -> Range(op.x) \subseteq g.V

VARIABLE store        \* handle -> graph, a sequence: handles are 1..Len(store)

(* the two ways of calling an operation *)
InPlace(h, op) == /\ Enabled(store[h], op)
                  /\ store' = [store EXCEPT ![h] = Apply(@, op)]
AsNew(h, op)   == /\ Enabled(store[h], op)
                  /\ store' = Append(store, Apply(store[h], op))
Create(g)      == store' = Append(store, g)

(* ---- properties of the design ------------------------------------------- *)
AllWellFormed == \A h \in DOMAIN store : WellFormed(store[h])
AllAcyclic    == \A h \in DOMAIN store : Acyclic(store[h])
(* at most one graph changes per step, none ever disappears *)
OneChange == [][/\ Len(store') \in {Len(store), Len(store) + 1}
                /\ Cardinality({h \in DOMAIN store : store'[h] # store[h]}) <= 1
                /\ (Len(store') > Len(store) => \A h \in DOMAIN store : store'[h] = store[h])]_store
=============================================================================
