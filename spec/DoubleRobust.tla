---------------------------- MODULE DoubleRobust ----------------------------
(* The doubly robust estimator over abstract learners: a classifier of the   *)
(* arm, a regressor of the outcome on features and arm, and a regressor of   *)
(* the pseudo outcomes on the covariates.  A row is                          *)
(* [f |-> all features, v |-> covariates, t |-> arm, y |-> outcomes].        *)
(* Inverse probabilities are 8/6, 8/2 or 8/1, so pseudo outcomes are counted *)
(* in thirds; the code adds 1e-5 to a probability, hence Slack.              *)
EXTENDS MetaLearner

Index(A, a) == CHOOSE k \in DOMAIN A : A[k] = a

(* Rare propensities: 1/256 for every class but the one picked, whose inverse counts as 1 and is off by 1.2% at most. *)
Inverse3(p, rare) == IF ~rare THEN 24 \div p ELSE IF p >= 3 THEN 3 ELSE 768

(* pseudo outcome of row i in arm a, in thirds, and the size of its inverse-weighted part *)
Pseudo3(rows, D, A, k, rare) ==
    LET X == Map(rows, LAMBDA r : [x |-> r.f, y |-> Index(A, r.t)])
        Y == RegT(rows)
    IN [i \in DOMAIN rows |->
          LET p == Prob8(OutOfFold(X, i, k), rows[i].f)
              YF == OutOfFold(Y, i, k)
          IN [a \in DOMAIN A |->
                LET h == Smooth(YF, D, <<rows[i].f, A[a]>>) IN
                [d \in 1..D |-> IF rows[i].t = A[a]
                                THEN [v |-> 3 * h[d] + (rows[i].y[d] - h[d]) * Inverse3(p[a], rare), w |-> AbsI(rows[i].y[d] - h[d]) * Inverse3(p[a], rare)]
                                ELSE [v |-> 3 * h[d], w |-> 0]]]]

(* effects of arm a against arm c: for the training rows if there is no covariate, else smoothed over the covariates *)
DREffects(P, rows, D, a, c, noCov, V) ==
    IF noCov
    THEN [i \in DOMAIN rows |-> [d \in 1..D |-> [v |-> P[i][a][d].v - P[i][c][d].v, w |-> P[i][a][d].w + P[i][c][d].w]]]
    ELSE LET RV == [i \in DOMAIN rows |-> [x |-> rows[i].v, y |-> [d \in 1..D |-> P[i][a][d].v - P[i][c][d].v]]]
             RW == [i \in DOMAIN rows |-> [x |-> rows[i].v, y |-> [d \in 1..D |-> P[i][a][d].w + P[i][c][d].w]]]
         IN Map(V, LAMBDA v : LET s == Smooth(RV, D, v)
                                  b == Smooth(RW, D, v) IN [d \in 1..D |-> [v |-> s[d], w |-> b[d]]])

(* out counts hundredths of a third *)
Close(out, x, rare) == AbsI(out - 100 * x.v) <= 2 + (IF rare THEN 2 * x.w ELSE x.w \div 60)
=============================================================================
