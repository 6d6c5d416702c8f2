----------------------------- MODULE MC_Forest ------------------------------
(* a forest of one tree while it grows: what weights and effects mean        *)
EXTENDS Forest
CONSTANTS N, X, C, Y
VARIABLES R, m, B
vars == <<R, m, B>>
MinusOne == -1
Outcomes == {MinusOne, 0, 2}
RowSet == [x : {<<a>> : a \in X}, c : {<<a>> : a \in C}, y : Y]
No == [leaf |-> 1, split |-> 2, depth |-> 0, leaves |-> 0, weight |-> <<0, 1>>, decrease |-> <<0, 1>>]
AllLimits == {No, [No EXCEPT !.leaf = 2], [No EXCEPT !.depth = 1], [No EXCEPT !.leaves = 2]}
Key(r) == r.x[1] * 100 + r.c[1] * 10 + r.y
Init == /\ R \in [1..N -> RowSet] /\ \A i \in 1..N-1 : Key(R[i]) <= Key(R[i + 1])
        /\ m \in AllLimits /\ B = G!Start(R)
Next == B' \in G!Grow(R, m, B) /\ UNCHANGED <<R, m>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Partition == /\ UNION {b.S : b \in B} = DOMAIN R
             /\ \A b, c \in B : b = c \/ b.S \cap c.S = {}
Weights == \A b \in B, c \in B : LET L == <<b.S, c.S>>
                                     a == Alpha(DOMAIN R, L)
                                 IN SumS(DOMAIN R, a) = Den(L) /\ \A i \in DOMAIN R : (a[i] # 0) <=> i \in b.S \cup c.S
Grp(S, t) == {i \in S : R[i].c[1] = t}
YOf(S) == SumS(S, [i \in S |-> R[i].y])
(* with treatments 0 and 1 in one leaf the effect is the difference of the means *)
Difference == \A b \in B : LET A == Grp(b.S, 1)
                               Z == Grp(b.S, 0)
                               E == System(R, <<b.S>>)
                           IN A \cup Z = b.S /\ A # {} /\ Z # {} =>
                              E.m[1][1] * (YOf(A) * Cardinality(Z) - YOf(Z) * Cardinality(A)) = E.v[1] * Cardinality(A) * Cardinality(Z)
(* neither the levels of the outcome nor of the treatment matter *)
Moved == [i \in DOMAIN R |-> [x |-> R[i].x, c |-> <<R[i].c[1] + 3>>, y |-> R[i].y - 2]]
Level == \A b, c \in B : System(R, <<b.S, c.S>>) = System(Moved, <<b.S, c.S>>)
(* an outcome which is twice the treatment has the effect 2 everywhere *)
Twice == [i \in DOMAIN R |-> [x |-> R[i].x, c |-> R[i].c, y |-> 2 * R[i].c[1]]]
Linear == \A b, c \in B : LET E == System(Twice, <<b.S, c.S>>) IN E.v[1] = 2 * E.m[1][1]
(* m is a Gram matrix *)
NotNegative == \A b, c \in B : System(R, <<b.S, c.S>>).m[1][1] >= 0
Ends == <>[](G!Grow(R, m, B) = {})
=============================================================================
