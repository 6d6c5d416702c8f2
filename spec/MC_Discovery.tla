---- MODULE MC_Discovery ----
(* every matrix of 3 variables with small weights *)
EXTENDS Discovery
CONSTANT Big
W == IF Big THEN {-2, 0, 1, 2} ELSE {-2, 0, 1}
N == 3
VARIABLES M0, M
vars == <<M0, M>>
Matrices == {m \in [1..N -> [1..N -> W]] : \A i \in 1..N : m[i][i] = 0 \/ (i = 1 /\ m[i][i] = 1)}
Init == M0 \in Matrices /\ M = M0
Next == \E R \in TrimSteps(M) : M' = R /\ UNCHANGED M0
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* it ends with what is promised *)
Terminates == <>(TrimSteps(M) = {})
ResultOK == TrimSteps(M) = {} => TrimOK(M0, M)
Progress == \A R \in TrimSteps(M) : Cardinality(MEdges(R)) < Cardinality(MEdges(M))
(* the strongest edge on any cycle survives when no other is as strong *)
StrongestSurvives ==
    LET Z == Zero(M0, Loops(M0)) IN
    \A e \in MEdges(Z) : (\A d \in MEdges(Z) \ {e} : Abs(M0[d[1]][d[2]]) < Abs(M0[e[1]][e[2]])) => e \in MEdges(M)
(* roles never overlap and never name the treatments or the outcome *)
RolesOK == LET g == GraphOfM(M) IN
    AcyclicM(M) =>
      \A y \in 1..N : \A T \in (SUBSET ((1..N) \ {y})) \ {{}} :
        LET r == ByAncestry(g, T, y) IN r.cov \cap r.ins = {} /\ (r.cov \cup r.ins) \cap (T \cup {y}) = {}
====
