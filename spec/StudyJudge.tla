----------------------------- MODULE StudyJudge -----------------------------
(* answers of doubly robust and double machine learning estimators, of the   *)
(* bounds and of the R-loss, recorded from the code                          *)
EXTENDS DoubleML, DoubleRobust, Bound, TLC

B1(ok, name) == IF ok THEN {} ELSE {name}
NDef(A, a, d) == IF a # <<>> THEN Position(A, a) ELSE d

(* out: individuals x outcomes x arms, in hundredths of a third; mean: one row, times n *)
SumRows(M) == <<[d \in DOMAIN M[1] |-> [a \in DOMAIN M[1][d] |->
                  [v |-> SumF([i \in DOMAIN M |-> M[i][d][a].v], Len(M)), w |-> SumF([i \in DOMAIN M |-> M[i][d][a].w], Len(M))]]]>>
DRFailed(e) ==
    LET A == AllArms(e.rows)
        P == Pseudo3(e.rows, e.D, A, e.fold, e.rare)
        t == IF e.treat = <<>> THEN (IF e.permuted THEN Len(A) ELSE 2) ELSE Position(A, e.treat)
        c == NDef(A, e.control, 1)
        arms == CASE e.form \in {"plain", "mean"} -> <<t>>
                  [] e.form = "all" -> [a \in DOMAIN A |-> a]
                  [] e.form = "nji" /\ e.permuted -> [a \in DOMAIN A |-> a]
                  [] e.form = "nji" /\ ~e.permuted -> IF t > c THEN <<c, t>> ELSE <<t, c>>
        per == [k \in DOMAIN arms |-> DREffects(P, e.rows, e.D, arms[k], c, e.nocov, e.tests)]
        M == [i \in DOMAIN per[1] |-> [d \in 1..e.D |-> [k \in DOMAIN arms |-> per[k][i][d]]]]
        want == IF e.form = "mean" THEN SumRows(M) ELSE M
    IN  IF Len(e.out) # Len(want) THEN {"shape"}
        ELSE IF \E i \in DOMAIN want : Len(e.out[i]) # e.D \/ \E d \in DOMAIN e.out[i] : Len(e.out[i][d]) # Len(arms) THEN {"shape"}
        ELSE B1(\A i \in DOMAIN want : \A d \in 1..e.D : \A k \in DOMAIN arms : Close(e.out[i][d][k], want[i][d][k], e.rare), "effect")

(* e.tests are covariates; for continuous treatments e.diff is the change of each treatment, per individual *)
DMLFailed(e) ==
    LET A == IF e.discrete THEN AllArms(e.rows) ELSE <<>>
        xr == XRes(e.rows, A, e.discrete, e.fold)
        yr == YRes(e.rows, e.D, e.proba, e.fold)
        C == Coef(xr, yr, e.rows, e.more)
        F == Map(e.tests, LAMBDA v : Fij(C, v, e.more))
        t == NDef(A, e.treat, 2)
        c == NDef(A, e.control, 1)
        eff == [i \in DOMAIN F |-> [j \in DOMAIN F[i] |->
                  CASE e.form = "nji" /\ e.discrete -> [a \in DOMAIN A |-> F[i][j][a] - F[i][j][c]]
                    [] e.form = "nji" /\ ~e.discrete -> F[i][j]
                    [] e.form # "nji" /\ e.discrete -> <<F[i][j][t] - F[i][j][c]>>
                    [] e.form # "nji" /\ ~e.discrete -> [a \in DOMAIN F[i][j] |-> F[i][j][a] * e.diff[i][a]]]]
        cut == IF e.target = 0 THEN eff ELSE [i \in DOMAIN eff |-> <<eff[i][e.target]>>]
        want == IF e.form = "mean"
                THEN <<[j \in DOMAIN cut[1] |-> [a \in DOMAIN cut[1][j] |-> SumF([i \in DOMAIN cut |-> cut[i][j][a]], Len(cut))]]>>
                ELSE cut
    IN B1(e.out = want, "effect")

RLossFailed(e) ==
    LET A == IF e.discrete THEN AllArms(e.rows) ELSE <<>>
        xr == XRes(e.rows, A, e.discrete, e.fold)
        yr == YRes(e.rows, e.D, FALSE, e.fold)
        t == NDef(A, e.treat, 2)
        x == IF e.discrete THEN [i \in DOMAIN xr |-> <<xr[i][t]>>] ELSE xr
        tau == IF e.tau # <<>> THEN e.tau
               ELSE [i \in DOMAIN e.rows |-> Columns(<<TEffect(e.rows, e.D, "reg", A[t], A[NDef(A, e.control, 1)], e.rows[i].f)>>)[1]]
    IN B1(e.out = RLossTimesN(x, yr, tau, IF e.discrete THEN 8 ELSE 1), "loss")

BoundFailed(e) ==
    LET A == AllArms(e.rows)
        n == Len(e.rows)
        t == NDef(A, e.treat, 2)
        c == NDef(A, e.control, 1)
        U == IF e.nocov /\ e.prob = <<>> THEN n ELSE 8
        Y == Map(e.rows, LAMBDA r : [x |-> <<r.v, r.t>>, y |-> r.y])
        X == Map(e.rows, LAMBDA r : [x |-> r.v, y |-> Position(A, r.t)])
        p(v) == IF e.prob # <<>> THEN e.prob
                ELSE IF e.nocov THEN [a \in DOMAIN A |-> Cardinality({i \in DOMAIN e.rows : e.rows[i].t = A[a]})]
                ELSE Vec(Prob8(X, v))
        seen == {e.data[i].y[1] : i \in {j \in DOMAIN e.data : e.data[j].t \in {A[t], A[c]}}}
        yu == IF e.upper # 999 THEN e.upper ELSE MaxOf(seen)
        yl == IF e.lower # 999 THEN e.lower ELSE MinOf(seen)
        V == IF e.nocov THEN <<<<>>>> ELSE [i \in DOMAIN e.data |-> e.data[i].v]
        both(v) == LET q == p(v)
                       yt == Smooth(Y, 1, <<v, A[t]>>)[1]
                       y0 == Smooth(Y, 1, <<v, A[c]>>)[1]
                       lo == LowerB(U, q[t], q[c], yt, y0, yu, yl)
                       up == UpperB(U, q[t], q[c], yt, y0, yu, yl)
                   IN <<IF e.assump = "non-negative" THEN 0 ELSE lo, IF e.assump = "non-positive" THEN 0 ELSE up>>
    IN  B1(e.out = Map(V, both), "bounds")

StudyFailed(e) ==
    IF e.raised # "" THEN {"raised"}
    ELSE B1(e.kept, "input_changed") \cup
         CASE e.k = "dr" -> DRFailed(e)
           [] e.k = "dml" -> DMLFailed(e)
           [] e.k = "rloss" -> RLossFailed(e)
           [] e.k = "bound" -> BoundFailed(e)
=============================================================================
