---- MODULE MC_Graph ----
(* Two independent definitions of separation agree on every mixed graph over  *)
(* N, and separation has the laws of conditional independence.                *)
EXTENDS Graph
CONSTANT N
VARIABLE gr
Ord == CHOOSE f \in [1..Cardinality(N) -> N] : \A i, j \in 1..Cardinality(N) : i # j => f[i] # f[j]
Init == gr \in [V : {N}, E : SUBSET {<<Ord[p[1]], Ord[p[2]]>> : p \in {q \in (1..Cardinality(N)) \X (1..Cardinality(N)) : q[1] < q[2]}},
               B : SUBSET {{p[1], p[2]} : p \in {q \in N \X N : q[1] # q[2]}}]
Next == UNCHANGED gr
Spec == Init /\ [][Next]_gr
Triples == {<<x, y, Z>> \in N \X N \X SUBSET N : x # y /\ x \notin Z /\ y \notin Z}
SeparationAgrees == \A t \in Triples : Separated(gr, {t[1]}, {t[2]}, t[3]) = SeparatedAug(gr, {t[1]}, {t[2]}, t[3])
Symmetric == \A t \in Triples : Separated(gr, {t[1]}, {t[2]}, t[3]) = Separated(gr, {t[2]}, {t[1]}, t[3])
(* decomposition and weak union *)
Graphoid == \A x \in N : \A Y \in SUBSET (N \ {x}) : \A Z \in SUBSET ((N \ {x}) \ Y) :
    Separated(gr, {x}, Y, Z) => \A W \in SUBSET Y : /\ Separated(gr, {x}, W, Z)
                                                   /\ Separated(gr, {x}, Y \ W, Z \cup W)
Adjacent == \A t \in Triples : (<<t[1], t[2]>> \in gr.E \/ {t[1], t[2]} \in gr.B) => ~Separated(gr, {t[1]}, {t[2]}, t[3])
====
