------------------------------ MODULE Interpret ------------------------------
(* The tree which explains effects: every split takes away most of the        *)
(* squared deviations of the effects from their means, and a leaf is worth    *)
(* the mean of its rows.  A row is [x, e: effects].                           *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE SumS(_, _)
SumS(S, f) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN f[i] + SumS(S \ {i}, f)
EffectSum(R, S, k) == SumS(S, [i \in S |-> R[i].e[k]])
SquareSum(R, S, k) == SumS(S, [i \in S |-> R[i].e[k] * R[i].e[k]])
Unit == 2520                      \* divided by every size up to 10
Outputs(R) == DOMAIN R[1].e
Explained(R, S) == SumS(Outputs(R), [k \in Outputs(R) |-> EffectSum(R, S, k) * EffectSum(R, S, k) * (Unit \div Cardinality(S))])
GainOf(R, S, L) == Explained(R, L) + Explained(R, S \ L) - Explained(R, S)
Deviations(R, S) == SumS(Outputs(R), [k \in Outputs(R) |-> SquareSum(R, S, k)]) * Unit - Explained(R, S)
Exact(R, S, L) == 0
WeightOf(R, S) == Cardinality(S)
BaseOf(R) == Unit * Cardinality(DOMAIN R) * Cardinality(Outputs(R))
MaxN(S) == CHOOSE a \in S : \A b \in S : b <= a
G == INSTANCE Tree WITH Gain <- GainOf, Off <- Exact, Weight <- WeightOf, Base <- BaseOf
=============================================================================
