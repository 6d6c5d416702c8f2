---- MODULE MC_Identify ----
(* The criteria are consistent with one another on every mixed graph over N   *)
(* (up to the order of the variables).                                        *)
EXTENDS Identify
CONSTANT N
VARIABLES gr, q
Ord == CHOOSE f \in [1..Cardinality(N) -> N] : \A i, j \in 1..Cardinality(N) : i # j => f[i] # f[j]
Graphs == [V : {N}, E : SUBSET {<<Ord[p[1]], Ord[p[2]]>> : p \in {r \in (1..Cardinality(N)) \X (1..Cardinality(N)) : r[1] < r[2]}},
           B : SUBSET {{p[1], p[2]} : p \in {r \in N \X N : r[1] # r[2]}}]
Init == gr \in Graphs /\ q = <<>>
Next == q = <<>> /\ \E x, y \in N : x # y /\ q' = <<x, y>> /\ UNCHANGED gr
Spec == Init /\ [][Next]_<<gr, q>>
Q(P(_, _)) == q # <<>> => P(q[1], q[2])
BackdoorIdentifies == Q(LAMBDA x, y : BackdoorSets(gr, {x}, {y}) # {} => Identifiable(gr, {x}, {y}))
FrontdoorIdentifies == Q(LAMBDA x, y : (\E Z \in FrontdoorSets(gr, x, y) : Z # {}) => Identifiable(gr, {x}, {y}))
NoLatentsIdentifies == Q(LAMBDA x, y : (gr.B = {} => Identifiable(gr, {x}, {y})) /\ (gr.B = {} /\ <<y, x>> \notin gr.E => ParentsOK(gr, {x}, {y})))
BowDoesNot == Q(LAMBDA x, y : (<<x, y>> \in gr.E /\ {x, y} \in gr.B) => ~Identifiable(gr, {x}, {y}))
NotAncestor == Q(LAMBDA x, y : y \notin De(gr, {x}) => Identifiable(gr, {x}, {y}))
(* a back-door set exists iff all admissible ancestors of x and y are one *)
Canonical == Q(LAMBDA x, y : LET Z == An(gr, {x, y}) \ (De(gr, {x}) \cup {y})
                            IN  (BackdoorSets(gr, {x}, {y}) # {}) = BackdoorOK(gr, {x}, {y}, Z))
(* an open path without colliders is what makes the empty set fail *)
PathsDecideEmpty == Q(LAMBDA x, y : <<y, x>> \notin gr.E =>
      (BackdoorOK(gr, {x}, {y}, {}) = (\A p \in BackdoorPaths(gr, x, y) : HasCollider(gr, p))))
InstrumentsAreExogenous == Q(LAMBDA x, y : \A z \in Instruments(gr, x, y) : {z, y} \notin gr.B /\ <<z, y>> \notin gr.E)
====
