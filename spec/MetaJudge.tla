----------------------------- MODULE MetaJudge -----------------------------
(* an answer of a fitted meta-learner, recorded from the code                *)
EXTENDS MetaLearner, TLC

B1(ok, name) == IF ok THEN {} ELSE {name}

TreatOf(e) == IF e.treat # <<>> THEN e.treat ELSE IF e.permuted THEN AllArms(e.rows)[Len(AllArms(e.rows))] ELSE AllArms(e.rows)[2]
ControlOf(e) == IF e.control # <<>> THEN e.control ELSE AllArms(e.rows)[1]

Versus(e, t, c) == Columns(Effects(e.learner, e.rows, e.D, e.mode, t, c, e.rho, e.tests))
(* one learner per pair, the larger treatment against the smaller; the other way round it is the negative *)
Signed(e, t, c) == IF LexLess(c, t) THEN Versus(e, t, c)
                   ELSE LET M == Versus(e, c, t) IN [i \in DOMAIN M |-> [d \in DOMAIN M[i] |-> <<0 - M[i][d][1]>>]]

NOut(e) == IF e.mode = "proba" THEN Cardinality({e.rows[i].y[1] : i \in DOMAIN e.rows}) ELSE e.D
Nothing(e) == [i \in DOMAIN e.tests |-> [d \in 1..NOut(e) |-> <<0>>]]

RECURSIVE Join(_, _, _)
Join(Ms, n, none) == IF n = 0 THEN [i \in DOMAIN none |-> [d \in DOMAIN none[i] |-> <<>>]]
                     ELSE LET L == Join(Ms, n - 1, none) IN [i \in DOMAIN L |-> [d \in DOMAIN L[i] |-> L[i][d] \o Ms[n][i][d]]]

(* individuals x outcomes x arms *)
Base(e) ==
    LET A == AllArms(e.rows)
        none == Nothing(e)
    IN  IF e.permuted
        THEN IF e.form = "nji"
             THEN Join([k \in DOMAIN A |-> IF A[k] = ControlOf(e) THEN none ELSE Signed(e, A[k], ControlOf(e))], Len(A), none)
             ELSE Signed(e, TreatOf(e), ControlOf(e))
        ELSE LET M == IF e.separate
                      THEN Join([k \in 1..Len(A) - 1 |-> Versus(e, A[k + 1], A[1])], Len(A) - 1, none)
                      ELSE Versus(e, TreatOf(e), ControlOf(e))
             IN IF e.form = "nji" THEN Join(<<none, M>>, 2, none) ELSE M

(* the class asked for; permuted learners default to the last one *)
Target(e) == IF e.target # 0 THEN e.target ELSE IF e.permuted /\ e.mode = "proba" THEN NOut(e) ELSE 0
Narrow(e, M) == IF Target(e) = 0 THEN M ELSE [i \in DOMAIN M |-> <<M[i][Target(e)]>>]
MeanTimesN(M) == <<[d \in DOMAIN M[1] |-> [a \in DOMAIN M[1][d] |-> SumF([i \in DOMAIN M |-> M[i][d][a]], Len(M))]]>>

Expected(e) == LET M == Narrow(e, Base(e)) IN IF e.form = "mean" THEN MeanTimesN(M) ELSE M

MetaFailed(e) ==
    IF e.raised # "" THEN {"raised"}
    ELSE B1(e.kept, "input_changed")
         \cup (IF e.out = Expected(e) THEN {} ELSE {"effect"})
=============================================================================
