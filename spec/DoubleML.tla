------------------------------ MODULE DoubleML ------------------------------
(* Double machine learning over abstract learners: residuals of treatments   *)
(* and outcomes, and a last stage which is linear in treatment residual x    *)
(* (1, covariates).  A row is [f, v, t, x, y]: t is the arm when treatments  *)
(* are discrete, x their numbers when they are not.                          *)
EXTENDS MetaLearner

Position(A, a) == CHOOSE k \in DOMAIN A : A[k] = a

(* residuals of the treatments: eighths when discrete *)
XRes(rows, A, discrete, k) ==
    LET C == Map(rows, LAMBDA r : [x |-> r.f, y |-> Position(A, r.t)])
        R == Map(rows, LAMBDA r : [x |-> r.f, y |-> r.x])
    IN [i \in DOMAIN rows |->
          IF discrete
          THEN LET p == Prob8(OutOfFold(C, i, k), rows[i].f) IN [a \in DOMAIN A |-> (IF rows[i].t = A[a] THEN 8 ELSE 0) - p[a]]
          ELSE Minus(rows[i].x, Smooth(OutOfFold(R, i, k), Len(rows[i].x), rows[i].f))]

(* residuals of the outcomes: eighths when they are class probabilities *)
YRes(rows, D, proba, k) ==
    LET C == Cls(rows)
        K == SortNum({rows[i].y[1] : i \in DOMAIN rows})
    IN [i \in DOMAIN rows |->
          IF proba THEN LET p == Vec(Prob8(OutOfFold(C, i, k), rows[i].f)) IN Minus(Seen("proba", K, rows[i].y), p)
          ELSE Minus(rows[i].y, Smooth(OutOfFold(Reg(rows), i, k), D, rows[i].f))]

(* what the covariates look like to the last stage; "more": the user's transformer appends 2 v + 1 to each *)
With1(v, more) == <<1>> \o v \o (IF more THEN [i \in DOMAIN v |-> 2 * v[i] + 1] ELSE <<>>)

(* coefficients: outcome -> treatment -> (1, covariates) *)
Coef(xr, yr, rows, more) ==
    LET V == [i \in DOMAIN rows |-> With1(rows[i].v, more)]
        n == Len(rows)
    IN [j \in DOMAIN yr[1] |-> [a \in DOMAIN xr[1] |-> [b \in DOMAIN V[1] |->
          SumF([i \in 1..n |-> yr[i][j] * xr[i][a] * V[i][b]], n)]]]

(* effect of one unit of treatment a on outcome j *)
Fij(C, v, more) ==
    LET w == With1(v, more)
    IN [j \in DOMAIN C |-> [a \in DOMAIN C[j] |-> SumF([b \in DOMAIN w |-> C[j][a][b] * w[b]], Len(w))]]

(* mean squared residual left over by effects tau, times n; tau[i][j][a] *)
RLossTimesN(xr, yr, tau, unit) ==
    LET n == Len(xr)
        left(i, j) == unit * yr[i][j] - SumF([a \in DOMAIN tau[i][j] |-> tau[i][j][a] * xr[i][a]], Len(tau[i][j]))
    IN [j \in DOMAIN yr[1] |-> SumF([i \in 1..n |-> left(i, j) * left(i, j)], n)]
=============================================================================
