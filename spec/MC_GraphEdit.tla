---- MODULE MC_GraphEdit ----
(* Exhaustive: every graph over the nodes N reachable from the empty graph,   *)
(* every operation in both modes, two live graphs.                            *)
EXTENDS GraphEdit
CONSTANTS N, Handles

One(S) == {<<x>> : x \in S}
Pairs(S) == {<<p>> : p \in {q \in S \X S : q[1] # q[2]}}
Subs(S) == {<<x>> : x \in S} \cup {<<p[1], p[2]>> : p \in {q \in S \X S : q[1] # q[2]}}
Op(o, x) == [op |-> o, x |-> x, p |-> <<>>]
OpP(o, p) == [op |-> o, x |-> <<>>, p |-> p]
Ops(g) ==
       {Op("add_nodes", x) : x \in One(N)}
  \cup {OpP("add_edges", x) : x \in Pairs(g.V)}
  \cup {OpP("add_arcs", x) : x \in Pairs(g.V)}
  \cup {Op("remove_nodes", x) : x \in Subs(g.V)}
  \cup {OpP("remove_edges", <<e>>) : e \in g.E}
  \cup {OpP("remove_arcs", x) : x \in {y \in Pairs(g.V) : {y[1][1], y[1][2]} \in g.B}}
  \cup {Op(o, x) : o \in {"sub_graph", "cut_in", "cut_out"}, x \in Subs(g.V)}
Legal(g, op) == Enabled(g, op) /\ Acyclic(Apply(g, op))

Init == store = << [V |-> {}, E |-> {}, B |-> {}] >>
Next == \E h \in DOMAIN store : \E op \in Ops(store[h]) :
            /\ Legal(store[h], op)
            /\ \/ InPlace(h, op)
               \/ Len(store) < Handles /\ AsNew(h, op)
Spec == Init /\ [][Next]_store

(* operations undo each other, cutting and restricting never add anything *)
Laws == \A h \in DOMAIN store : LET g == store[h] IN
    /\ \A x \in Pairs(g.V) : LET a == OpP("add_arcs", x) r == OpP("remove_arcs", x)
                             IN  {x[1][1], x[1][2]} \notin g.B => Apply(Apply(g, a), r) = g
    /\ \A x \in Subs(g.V) : /\ Apply(g, Op("remove_nodes", x)).E \subseteq g.E
                            /\ Pa(CutIn(g, Range(x)), Range(x)) = {}
                            /\ Sp(CutIn(g, Range(x)), Range(x)) = {}
                            /\ Ch(CutOut(g, Range(x)), Range(x)) = {}
                            /\ CutOut(g, Range(x)).B = g.B
====
