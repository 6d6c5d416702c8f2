----------------------------- MODULE MC_Interpret ----------------------------
(* growing the tree which explains effects *)
EXTENDS Interpret
CONSTANTS N, X, E
VARIABLES R, m, B
vars == <<R, m, B>>
RowSet == [x : {<<a, b>> : a \in X, b \in {0, 1}}, e : {<<v, w>> : v \in E, w \in {0, 1}}]
No == [leaf |-> 1, split |-> 2, depth |-> 0, leaves |-> 0, weight |-> <<0, 1>>, decrease |-> <<0, 1>>]
AllLimits == {No, [No EXCEPT !.leaf = 2], [No EXCEPT !.depth = 1], [No EXCEPT !.leaves = 2], [No EXCEPT !.decrease = <<1, 4>>]}
Key(r) == r.x[1] * 100 + r.x[2] * 10 + r.e[1] * 2 + r.e[2]
Init == /\ R \in [1..N -> RowSet] /\ \A i \in 1..N-1 : Key(R[i]) <= Key(R[i + 1])
        /\ m \in AllLimits /\ B = G!Start(R)
Next == B' \in G!Grow(R, m, B) /\ UNCHANGED <<R, m>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
RECURSIVE Over(_)
Over(P) == IF P = {} THEN 0 ELSE LET b == CHOOSE b \in P : TRUE IN Deviations(R, b.S) + Over(P \ {b})
Left == Over(B)
Partition == /\ UNION {b.S : b \in B} = DOMAIN R
             /\ \A b, c \in B : b = c \/ b.S \cap c.S = {}
             /\ \A b \in B : b.S # {}
Less == Left <= Deviations(R, DOMAIN R) /\ Left >= 0
(* what is left within the leaves and what is explained make up the whole *)
Whole ==
    \A b \in B : Explained(R, b.S) >= 0 /\ (Deviations(R, b.S) = 0) = (\A i, j \in b.S : R[i].e = R[j].e)
Helps == [][Over(B') < Over(B)]_vars
Ends == <>[](G!Grow(R, m, B) = {})
Limited == /\ (m.leaves # 0 => Cardinality(B) <= m.leaves)
           /\ \A b \in B : (m.depth # 0 => b.d <= m.depth) /\ (Cardinality(B) > 1 => Cardinality(b.S) >= m.leaf)
=============================================================================
