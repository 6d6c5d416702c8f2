------------------------------ MODULE MC_Bound ------------------------------
(* the bounds hold for every population, whatever made the treated differ from the others, and are attained *)
EXTENDS Bound
CONSTANTS N, Y
VARIABLES t, y1, y0
vars == <<t, y1, y0>>
Init == /\ t \in [1..N -> 0..2] /\ y1 \in [1..N -> Y] /\ y0 \in [1..N -> Y]
        /\ \E i \in 1..N : t[i] = 1
        /\ \E i \in 1..N : t[i] = 0
Next == UNCHANGED vars
Of(k) == {i \in 1..N : t[i] = k}
SumOver(S, f) == SumF([i \in 1..N |-> IF i \in S THEN f[i] ELSE 0], N)
n1 == Cardinality(Of(1))
n0 == Cardinality(Of(0))
YU == MaxOf(Y)
YL == MinOf(Y)
(* everything times n1 * n0 to stay in integers; probabilities in units of 1/N *)
Scale == n1 * n0
Up == UpperB(N, n1, n0, 0, 0, YU, YL) * Scale + n1 * SumOver(Of(1), y1) * n0 - n0 * SumOver(Of(0), y0) * n1
Lo == LowerB(N, n1, n0, 0, 0, YU, YL) * Scale + n1 * SumOver(Of(1), y1) * n0 - n0 * SumOver(Of(0), y0) * n1
Effect == (SumOver(1..N, y1) - SumOver(1..N, y0)) * Scale
Holds == Lo <= Effect /\ Effect <= Up
Width == Up - Lo = (2 * N - n1 - n0) * (YU - YL) * Scale
Attained == (\A i \in 1..N : (t[i] # 1 => y1[i] = YU) /\ (t[i] # 0 => y0[i] = YL)) => Effect = Up
Inv == Holds /\ Width /\ Attained
=============================================================================
