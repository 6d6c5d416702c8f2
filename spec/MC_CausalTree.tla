--------------------------- MODULE MC_CausalTree ----------------------------
(* growing a causal tree                                                     *)
EXTENDS CausalTree
CONSTANTS N, X, Y
VARIABLES R, m, B
vars == <<R, m, B>>
MinusOne == -1
Outcomes == {MinusOne, 0, 2}
RowSet == [x : {<<a>> : a \in X}, t : {0, 1}, y : Y]
No == [leaf |-> 1, split |-> 2, depth |-> 0, leaves |-> 0, weight |-> <<0, 1>>, decrease |-> <<0, 1>>]
AllLimits == {No, [No EXCEPT !.leaf = 2], [No EXCEPT !.depth = 1], [No EXCEPT !.decrease = <<500, 1>>]}
Key(r) == r.x[1] * 100 + r.t * 10 + r.y
Init == /\ R \in [1..N -> RowSet]
        /\ \A i \in 1..N-1 : Key(R[i]) <= Key(R[i + 1])
        /\ m \in AllLimits
        /\ B = G!Start(R)
Next == B' \in G!Grow(R, m, B) /\ UNCHANGED <<R, m>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
RECURSIVE Value(_)
Value(P) == IF P = {} THEN 0 ELSE LET b == CHOOSE b \in P : TRUE IN WorthOf(R, b.S) + Value(P \ {b})
Partition == /\ UNION {b.S : b \in B} = DOMAIN R
             /\ \A b, c \in B : b = c \/ b.S \cap c.S = {}
             /\ \A b \in B : b.S # {}
Limited == \A b \in B : (m.depth # 0 => b.d <= m.depth) /\ (Cardinality(B) > 1 => Cardinality(b.S) >= m.leaf)
(* outcomes which do not differ within the groups, nor from zero in control, show no difference of effects: nothing is split *)
Same == (\A i, j \in DOMAIN R : R[i].t = R[j].t => R[i].y = R[j].y) /\ (\A i \in DOMAIN R : R[i].t = 0 => R[i].y = 0) => Cardinality(B) = 1
(* the effect never leaves the range of the outcomes *)
InRange == \A b \in B : LET d == EffDen(R, b.S) IN EffNum(R, b.S) <= 3 * d /\ EffNum(R, b.S) >= -3 * d
Helps == [][Value(B') > Value(B)]_vars
Ends == <>[](G!Grow(R, m, B) = {})
=============================================================================
