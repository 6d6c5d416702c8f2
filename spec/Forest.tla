------------------------------- MODULE Forest -------------------------------
(* The generalized random forest.  A row is [x: features, c: treatments,     *)
(* y: outcome].  Every tree spreads the weight 1 / (number of trees) of an   *)
(* individual evenly over the rows in its leaf; the effect solves the        *)
(* weighted least squares of the outcome on the treatments, both centred.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE SumS(_, _)
SumS(S, f) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN f[i] + SumS(S \ {i}, f)
FAbs(x) == IF x < 0 THEN 0 - x ELSE x
Sum1(R, S, j) == SumS(S, [i \in S |-> R[i].c[j]])

(* ---- growth, for one treatment: rho is the influence of a row on the coefficient of the node; *)
(* a split is good if the influences add up to something on its sides                            *)
Fine == 200
Rho(R, S) == LET n == Cardinality(S)
                 X == Sum1(R, S, 1)
                 Y == SumS(S, [i \in S |-> R[i].y])
                 Q == SumS(S, [i \in S |-> R[i].c[1] * R[i].c[1]])
                 P == SumS(S, [i \in S |-> R[i].c[1] * R[i].y])
                 den == Q * (n * Q - X * X)
             IN [i \in S |-> IF den = 0 THEN 0
                             ELSE LET u == n * R[i].c[1] - X IN (Fine * u * ((n * R[i].y - Y) * Q - u * P)) \div den]
Influence(R, S, L) == LET r == TLCEval(Rho(R, S)) IN SumS(L, [i \in L |-> r[i]])
Square(s, k) == (s * s) \div k
GainOf(R, S, L) == Square(Influence(R, S, L), Cardinality(L)) + Square(Influence(R, S, S \ L), Cardinality(S \ L))
Near(R, S, L) == 2 * FAbs(Influence(R, S, L)) + 2 * FAbs(Influence(R, S, S \ L)) + 2 * Cardinality(S) + 2
Count(R, S) == Cardinality(S)
One(R) == 1
G == INSTANCE Tree WITH Gain <- GainOf, Off <- Near, Weight <- Count, Base <- One
(* the same where only the limits bind: every allowed split is as good as another *)
Some(R, S, L) == 1
None(R, S, L) == 0
Free == INSTANCE Tree WITH Gain <- Some, Off <- None, Weight <- Count, Base <- One

(* ---- weights: leaves[b] is the set of rows in the leaf of tree b where the individual is; an empty one gives no weight *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Lcm(a, b) == (a * b) \div Gcd(a, b)
RECURSIVE LcmOf(_, _)
LcmOf(leaves, b) == IF b = 0 THEN 1 ELSE LET n == Cardinality(leaves[b]) IN IF n = 0 THEN LcmOf(leaves, b - 1) ELSE Lcm(n, LcmOf(leaves, b - 1))
Den(leaves) == LcmOf(leaves, Len(leaves)) * Len(leaves)
RECURSIVE SumB(_, _)
SumB(f, b) == IF b = 0 THEN 0 ELSE f[b] + SumB(f, b - 1)
(* weights times Den *)
Alpha(N, leaves) == LET d == Den(leaves) IN
    [i \in N |-> SumB([b \in DOMAIN leaves |-> IF i \in leaves[b] THEN d \div (Len(leaves) * Cardinality(leaves[b])) ELSE 0], Len(leaves))]

(* ---- effects: M theta = v, all times Den^3 *)
Centred(N, a, d, f) == LET s == SumS(N, [i \in N |-> a[i] * f[i]]) IN [i \in N |-> d * f[i] - s]
System(R, leaves) ==
    LET N == DOMAIN R
        J == DOMAIN R[CHOOSE i \in N : TRUE].c
        d == Den(leaves)
        a == TLCEval(Alpha(N, leaves))
        U == TLCEval([j \in J |-> Centred(N, a, d, [i \in N |-> R[i].c[j]])])
        Y == TLCEval(Centred(N, a, d, [i \in N |-> R[i].y]))
    IN  [m |-> [j \in J |-> [k \in J |-> SumS(N, [i \in N |-> a[i] * U[j][i] * U[k][i]])]],
         v |-> [j \in J |-> SumS(N, [i \in N |-> a[i] * U[j][i] * Y[i]])],
         d |-> d]
=============================================================================
