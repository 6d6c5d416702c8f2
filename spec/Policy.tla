------------------------------- MODULE Policy -------------------------------
(* The policy tree: a leaf gives one treatment to all its rows and is worth  *)
(* the largest sum of effects.  A row is [x, e: effects per treatment, w].   *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE SumS(_, _)
SumS(S, f) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN f[i] + SumS(S \ {i}, f)
WeightOf(R, S) == SumS(S, [i \in S |-> R[i].w])
EffectSum(R, S, k) == SumS(S, [i \in S |-> R[i].w * R[i].e[k]])
MaxN(S) == CHOOSE a \in S : \A b \in S : b <= a
WorthOf(R, S) == MaxN({EffectSum(R, S, k) : k \in DOMAIN R[1].e})
GainOf(R, S, L) == WorthOf(R, L) + WorthOf(R, S \ L) - WorthOf(R, S)
Exact(R, S, L) == 0
BaseOf(R) == WeightOf(R, DOMAIN R)
G == INSTANCE Tree WITH Gain <- GainOf, Off <- Exact, Weight <- WeightOf, Base <- BaseOf
=============================================================================
