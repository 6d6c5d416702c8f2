----------------------------- MODULE CausalTree -----------------------------
(* The causal tree: a row is [x: features, t: 1 if treated, 0 if in control, *)
(* y: outcome].  The effect of a leaf is the difference of the means of its  *)
(* two groups; a split is good if the effects of its sides are far from zero *)
(* and sure: a leaf of n rows is worth                                       *)
(*    n (effect^2 - 2 var_t / n_t - 2 var_0 / n_0),                          *)
(* in thousandths; an empty group counts as one with outcomes of 0.          *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE SumS(_, _)
SumS(S, f) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN f[i] + SumS(S \ {i}, f)
Arm(R, S, t) == {i \in S : R[i].t = t}
OneIf(n) == IF n = 0 THEN 1 ELSE n
Tot(R, S) == SumS(S, [i \in S |-> R[i].y])
Squ(R, S) == SumS(S, [i \in S |-> R[i].y * R[i].y])
(* the effect is EffNum / EffDen *)
EffDen(R, S) == OneIf(Cardinality(Arm(R, S, 1))) * OneIf(Cardinality(Arm(R, S, 0)))
EffNum(R, S) == LET A == Arm(R, S, 1)
                    B == Arm(R, S, 0)
                IN Tot(R, A) * OneIf(Cardinality(B)) - Tot(R, B) * OneIf(Cardinality(A))
Milli == 1000
Doubt(R, A, n) == IF A = {} THEN 0
                  ELSE LET k == Cardinality(A) IN (2 * n * (Squ(R, A) * k - Tot(R, A) * Tot(R, A)) * Milli) \div (k * k * k)
WorthOf(R, S) == LET n == Cardinality(S)
                     d == EffDen(R, S)
                     e == EffNum(R, S)
                 IN (n * e * e * Milli) \div (d * d) - Doubt(R, Arm(R, S, 1), n) - Doubt(R, Arm(R, S, 0), n)
Count(R, S) == Cardinality(S)
GainOf(R, S, L) == WorthOf(R, L) + WorthOf(R, S \ L) - WorthOf(R, S)
Near(R, S, L) == 60
BaseOf(R) == Cardinality(DOMAIN R)
G == INSTANCE Tree WITH Gain <- GainOf, Off <- Near, Weight <- Count, Base <- BaseOf

(* ---- honesty: rows H were held out when the tree was grown; they alone set the effects of the leaves where both groups are present *)
Teller(R, S, H) == IF Arm(R, H, 1) # {} /\ Arm(R, H, 0) # {} THEN H ELSE S
=============================================================================
