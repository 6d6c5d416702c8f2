-------------------------- MODULE MC_DoubleRobust --------------------------
(* why the pseudo outcomes are called doubly robust *)
EXTENDS DoubleRobust
CONSTANTS Y, Arms
VARIABLES y, h, p
vars == <<y, h, p>>
Ps == IF Arms = 2 THEN {<<6, 2>>, <<2, 6>>} ELSE IF Arms = 3 THEN {<<6, 1, 1>>, <<1, 6, 1>>, <<1, 1, 6>>} ELSE {<<4, 2, 1, 1>>, <<1, 4, 2, 1>>, <<1, 1, 4, 2>>, <<2, 1, 1, 4>>}
Init == y \in [1..Arms -> Y] /\ h \in [1..Arms -> Y] /\ p \in Ps
Next == UNCHANGED vars
(* pseudo outcome of arm a for an individual with potential outcomes y who was given arm t *)
Ps3(a, t) == 3 * h[a] + (IF a = t THEN (y[a] - h[a]) * (24 \div p[a]) ELSE 0)
(* right propensities: unbiased whatever the outcome model says *)
Unbiased == \A a \in 1..Arms : SumF([t \in 1..Arms |-> p[t] * Ps3(a, t)], Arms) = 24 * y[a]
(* right outcome model: exact whatever the propensity model says *)
Exact == h = y => \A a, t \in 1..Arms : Ps3(a, t) = 3 * y[a]
Inv == Unbiased /\ Exact
=============================================================================
