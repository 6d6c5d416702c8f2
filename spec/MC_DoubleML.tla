---------------------------- MODULE MC_DoubleML ----------------------------
(* laws of cross-fitting, of the last stage and of the R-loss *)
EXTENDS DoubleML
CONSTANTS N, X, T0
MinusToOne == -1..1
MinusToTwo == -1..2
VARIABLES x, v, e, tau
vars == <<x, v, e, tau>>
Init == /\ x \in [1..N -> X] /\ v \in [1..N -> {0, 1}] /\ e \in [1..N -> {-1, 0, 1}]
        /\ tau \in [1..2 -> T0]
Next == UNCHANGED vars
XR == [i \in 1..N |-> <<x[i]>>]
Rows == [i \in 1..N |-> [v |-> <<v[i]>>]]
T(i, t) == t[1] + t[2] * v[i]
YR == [i \in 1..N |-> <<T(i, tau) * x[i] + e[i]>>]
Taus(t) == [i \in 1..N |-> <<<<T(i, t)>>>>]
Loss(t) == RLossTimesN(XR, YR, Taus(t), 1)[1]
Pure == \A i \in 1..N : e[i] = 0
(* the true effect leaves only the noise, nothing if there is none, and then nothing else does better *)
TrueEffect == Loss(tau) = SumF([i \in 1..N |-> e[i] * e[i]], N)
Best == Pure => \A t \in [1..2 -> T0] : Loss(t) >= 0 /\ (Loss(t) = 0 <=> \A i \in 1..N : x[i] = 0 \/ T(i, t) = T(i, tau))
(* the right-hand side of the normal equations is that of the true effect plus that of the noise *)
Normal == LET C == Coef(XR, YR, Rows, FALSE)[1][1] IN
    /\ C[1] = SumF([i \in 1..N |-> x[i] * x[i] * T(i, tau) + x[i] * e[i]], N)
    /\ C[2] = SumF([i \in 1..N |-> v[i] * (x[i] * x[i] * T(i, tau) + x[i] * e[i])], N)
Zero(i) == Fij(Coef(XR, [k \in 1..N |-> <<0>>], Rows, FALSE), <<v[i]>>, FALSE) = <<<<0>>>>
Inv == TrueEffect /\ Best /\ Normal /\ Zero(1)
(* cross-fitting: folds are consecutive, as equal as possible, and no row is predicted by a model which saw it *)
ASSUME \A n \in 2..12 : \A k \in 2..n :
    LET rows == [i \in 1..n |-> i]
        size(i) == n - Len(OutOfFold(rows, i, k))
    IN /\ {FoldOf(i, n, k) : i \in 1..n} = 0..k-1
       /\ \A i \in 1..n : /\ size(i) \in {n \div k, (n + k - 1) \div k}
                          /\ \A j \in DOMAIN OutOfFold(rows, i, k) : OutOfFold(rows, i, k)[j] # i
       /\ \A i \in 1..n-1 : FoldOf(i + 1, n, k) \in {FoldOf(i, n, k), FoldOf(i, n, k) + 1} /\ size(i) >= size(i + 1)
=============================================================================
