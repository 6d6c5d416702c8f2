---- MODULE MC_Semantics ----
(* The evaluation of expressions agrees with do-calculus: adjusting for any   *)
(* back-door set, or through any front-door set, gives the effect of the      *)
(* intervention; adjusting for an invalid set does not.                       *)
EXTENDS Identify, Semantics
CONSTANTS N, Seeds
VARIABLES gr, q
TwoSeeds == <<101, 20011>>
Order == CHOOSE f \in [1..Cardinality(N) -> N] : \A i, j \in 1..Cardinality(N) : i # j => f[i] # f[j]
Graphs == [V : {N}, E : SUBSET {<<Order[p[1]], Order[p[2]]>> : p \in {r \in (1..Cardinality(N)) \X (1..Cardinality(N)) : r[1] < r[2]}},
           B : SUBSET {{p[1], p[2]} : p \in {r \in N \X N : r[1] # r[2]}}]
Init == gr \in Graphs /\ q = <<>>
Next == q = <<>> /\ \E x, y \in N : x # y /\ q' = <<x, y>> /\ UNCHANGED gr
Spec == Init /\ [][Next]_<<gr, q>>
M(S) == Mask(Order, S)
T(v, c, m, p) == [v |-> M(v), c |-> M(c), m |-> M(m), p |-> p, d |-> <<>>]
Adjust(X, Y, Z) == T({}, {}, Z, <<T(Y, X \cup Z, {}, <<>>), T(Z, {}, {}, <<>>)>>)
Front(X, Y, Z) == T({}, {}, Z, <<T(Z, X, {}, <<>>), T({}, {}, X, <<T(Y, X \cup Z, {}, <<>>), T(X, {}, {}, <<>>)>>)>>)
Ok(X, Y, t) == Sound(gr, X, Y, <<t>>, Order, Seeds, <<1, 6>>)
Tables == \A s \in Range(Seeds) : LET w == World(Order, gr, s) J == Joint(w)
                                  IN  SumOver(0..(w.full - 1), LAMBDA b : J[b]) = 1
Backdoor == q # <<>> => \A Z \in BackdoorSets(gr, {q[1]}, {q[2]}) : Ok({q[1]}, {q[2]}, Adjust({q[1]}, {q[2]}, Z))
Frontdoor == q # <<>> => \A Z \in FrontdoorSets(gr, q[1], q[2]) : Z # {} => Ok({q[1]}, {q[2]}, Front({q[1]}, {q[2]}, Z))
EmptyInvalid == q # <<>> /\ q[2] \in De(gr, {q[1]}) /\ ~BackdoorOK(gr, {q[1]}, {q[2]}, {}) => ~Ok({q[1]}, {q[2]}, T({q[2]}, {q[1]}, {}, <<>>))
====
