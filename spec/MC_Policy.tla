----------------------------- MODULE MC_Policy ------------------------------
(* growing a policy tree: every step helps, and it ends between the best     *)
(* single treatment and the best treatment of every individual               *)
EXTENDS Policy
CONSTANTS N, X, E
VARIABLES R, m, B
vars == <<R, m, B>>
MinusOne == -1
Effects == {MinusOne, 1}
MoreEffects == {MinusOne, 0, 2}
RowSet == [x : {<<a, b>> : a \in X, b \in {0, 1}}, e : {<<0, v>> : v \in E}, w : {1}]
No == [leaf |-> 1, split |-> 2, depth |-> 0, leaves |-> 0, weight |-> <<0, 1>>, decrease |-> <<0, 1>>]
AllLimits == {No, [No EXCEPT !.leaf = 2], [No EXCEPT !.depth = 1], [No EXCEPT !.leaves = 2], [No EXCEPT !.leaves = 3], [No EXCEPT !.decrease = <<1, 4>>]}
Key(r) == r.x[1] * 100 + r.x[2] * 10 + r.e[2]
Init == /\ R \in [1..N -> RowSet] /\ \A i \in 1..N-1 : Key(R[i]) <= Key(R[i + 1])
        /\ m \in AllLimits /\ B = G!Start(R)
Next == B' \in G!Grow(R, m, B) /\ UNCHANGED <<R, m>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Value(P) == LET S == {b.S : b \in P}
                RECURSIVE T(_)
                T(Q) == IF Q = {} THEN 0 ELSE LET s == CHOOSE s \in Q : TRUE IN WorthOf(R, s) + T(Q \ {s})
            IN T(S)
Partition == /\ UNION {b.S : b \in B} = DOMAIN R
             /\ \A b, c \in B : b = c \/ b.S \cap c.S = {}
             /\ \A b \in B : b.S # {}
Between == /\ Value(B) >= WorthOf(R, DOMAIN R)
           /\ Value(B) <= SumS(DOMAIN R, [i \in DOMAIN R |-> R[i].w * MaxN({R[i].e[k] : k \in 1..2})])
Limited == /\ (m.leaves # 0 => Cardinality(B) <= m.leaves)
           /\ \A b \in B : (m.depth # 0 => b.d <= m.depth) /\ (Cardinality(B) > 1 => Cardinality(b.S) >= m.leaf)
Helps == [][Value(B') > Value(B)]_vars
Ends == <>[](G!Grow(R, m, B) = {})
=============================================================================
