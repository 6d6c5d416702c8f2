------------------------------ MODULE MC_Uplift ------------------------------
(* relations of the curves which hold for every population and every score   *)
EXTENDS Uplift
CONSTANTS N, Y
VARIABLES R
Init == /\ R \in [1..N -> [s : 1..2, y : Y, t : 0..1, e : {0}]]
        /\ \E i \in 1..N : R[i].t = 0
        /\ \E i \in 1..N : R[i].t = 1
Next == UNCHANGED R
E == [i \in DOMAIN R |-> [R[i] EXCEPT !.e = R[i].y]]  \* the outcome as a stand-in for the effect
Fns == {"lift", "gain", "qini"}
(* whatever the score: the same end *)
SameEnd == \A te \in BOOLEAN : \A fn \in Fns : \A o \in Orders(AnyScore(E)) : Value(E, fn, te, o, N) = End(E, fn, te)
(* gain and qini are the lift of the first k times k, and times the number of treated *)
Related == \A te \in BOOLEAN : \A o \in Orders(E) : \A k \in 1..N :
    (Known(E, "lift", te, o, k)) =>
        /\ Value(E, "gain", te, o, k) = k * Value(E, "lift", te, o, k)
        /\ te \/ Value(E, "qini", te, o, k) = Count(E, o, k, 1) * Value(E, "lift", te, o, k)
(* exact arithmetic: U is divisible by every denominator *)
Exact == \A o \in Orders(E) : \A k \in 1..N :
    /\ (U % k) = 0
    /\ Known(E, "lift", FALSE, o, k) => (U % (Count(E, o, k, 1) * Count(E, o, k, 0))) = 0
(* no order has a higher gain than that of the true effects *)
Ideal == \A o \in Orders(AnyScore(E)) : \A p \in Orders([i \in DOMAIN E |-> [E[i] EXCEPT !.s = E[i].e]]) :
    \A k \in 1..N : Value(E, "gain", TRUE, o, k) <= Value(E, "gain", TRUE, p, k)
(* swapping the arms turns the lift around *)
Swap(Q) == [i \in DOMAIN Q |-> [Q[i] EXCEPT !.t = 1 - Q[i].t]]
Mirror == \A o \in Orders(E) : \A k \in 1..N : Known(E, "lift", FALSE, o, k) =>
    Value(Swap(E), "lift", FALSE, o, k) = 0 - Value(E, "lift", FALSE, o, k)
Inv == SameEnd /\ Related /\ Exact /\ Ideal /\ Mirror
=============================================================================
