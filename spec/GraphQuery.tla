----------------------------- MODULE GraphQuery -----------------------------
(* What the queries of a causal graph answer. *)
EXTENDS Graph

SetOf(x) == Range(x)
PairSet(x) == {{p[1], p[2]} : p \in Range(x)}
B1(ok, name) == IF ok THEN {} ELSE {name}

(* number of arrows u -> w of the mixed graph: an observed edge, and an arc has one each way *)
Weight(g, u, w) == (IF <<u, w>> \in g.E THEN 1 ELSE 0) + (IF {u, w} \in g.B THEN 1 ELSE 0)

StructFailed(e) ==
    LET g == GraphOf(e.g)
        x == e.x          \* the explicit graph: nodes x.V, edges x.E
        lat == Range(x.V) \ g.V
    IN   B1(\A r \in Range(e.parents) : Range(r.pa) = Pa(g, {r.v}) /\ Len(r.pa) = Cardinality(Pa(g, {r.v})), "parents")
    \cup B1(\A r \in Range(e.parents) :
              /\ Range(r.all) \cap g.V = Pa(g, {r.v})
              /\ Cardinality(Range(r.all) \ g.V) = Cardinality({b \in g.B : r.v \in b})
              /\ Len(r.all) = Cardinality(Range(r.all)), "all_parents")
    \cup B1(IsTopological(g, e.topo), "topological_order")
    \cup B1(e.is_dag, "is_dag")
    \cup B1({SetOf(c) : c \in Range(e.comps)} = Districts(g) /\ Len(e.comps) = Cardinality(Districts(g)), "c_components")
    \cup B1(PairSet(e.arcs) = g.B /\ Len(e.arcs) = Cardinality(g.B), "latent_arcs")
    \cup B1(\A i, j \in DOMAIN e.order : e.adj[i][j] = Weight(g, e.order[i], e.order[j]), "adjacency")
    \cup B1(Range(e.order) = g.V, "nodes")
    \cup B1(SetOf(e.prob) = g.V, "joint_distribution")
    \* every arc becomes one latent variable of its own, with the two variables as its children
    \cup B1(g.V \subseteq Range(x.V) /\ Cardinality(lat) = Cardinality(g.B) /\ Len(x.V) = Cardinality(Range(x.V)), "explicit_nodes")
    \cup B1({<<p[1], p[2]>> : p \in {q \in Range(x.E) : q[1] \in g.V}} = g.E
            /\ Len(x.E) = Cardinality(g.E) + 2 * Cardinality(g.B)
            /\ (\A p \in Range(x.E) : p[2] \in g.V)
            /\ {{p[2] : p \in {q \in Range(x.E) : q[1] = u}} : u \in lat} = g.B, "explicit_edges")

QueryFailed(e) ==
    IF e.raised # "" THEN {"raised"}
    ELSE LET g == GraphOf(e.g) IN
    CASE e.k = "struct" -> StructFailed(e)
      [] e.k = "reach" ->    B1(SetOf(e.an) = An(g, SetOf(e.S)), "ancestors")
                        \cup B1(SetOf(e.de) = De(g, SetOf(e.S)), "descendants")
      [] e.k = "dsep" -> B1(e.out = Separated(g, SetOf(e.X), SetOf(e.Y), SetOf(e.Z)), "d_separation")
      [] e.k = "acyclic" -> B1(e.out = Acyclic(g), "is_dag")
      [] e.k = "pure" -> B1(GraphOf(e.after) = g, "query_changed_graph")
=============================================================================
