------------------------------- MODULE Bound -------------------------------
(* Bounds of an effect without further assumptions, over abstract learners.  *)
(* pt, p0: probabilities of treatment and control in units of 1/U;           *)
(* yt, y0: expected outcomes; yu, yl: largest and smallest outcome.          *)
EXTENDS MetaLearner

UpperB(U, pt, p0, yt, y0, yu, yl) == pt * yt + (U - pt) * yu - (U - p0) * yl - p0 * y0
LowerB(U, pt, p0, yt, y0, yu, yl) == pt * yt + (U - pt) * yl - (U - p0) * yu - p0 * y0
MaxOf(S) == CHOOSE a \in S : \A b \in S : a >= b
MinOf(S) == CHOOSE a \in S : \A b \in S : a <= b
=============================================================================
