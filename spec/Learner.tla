------------------------------ MODULE Learner ------------------------------
(* What a user plugs into an estimator: a regressor or a classifier, seen as *)
(* a function of its training rows.  The two concrete ones below are exact   *)
(* in integers, distinguish feature rows by equality only and depend on      *)
(* every training row; lib/stubs.py implements them for the real estimators. *)
(* A training row is [x |-> features, y |-> target].                         *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE SumF(_, _)
SumF(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumF(f, n - 1)

Total(s) == SumF(s, Len(s))
AbsI(x) == IF x < 0 THEN -x ELSE x

Select(s, Test(_)) == LET R[i \in 0..Len(s)] == IF i = 0 THEN <<>> ELSE IF Test(s[i]) THEN Append(R[i-1], s[i]) ELSE R[i-1]
                      IN R[Len(s)]
Map(s, Op(_)) == [i \in DOMAIN s |-> Op(s[i])]

Weight(r, v) == IF r.x = v THEN 3 ELSE 1

(* the regressor, for targets which are tuples of D numbers *)
Smooth(rows, D, v) ==
    LET w == [i \in DOMAIN rows |-> Weight(rows[i], v)]
    IN [d \in 1..D |-> SumF([i \in DOMAIN rows |-> rows[i].y[d] * w[i]], Len(rows))]

(* the same with the absolute values of the targets: bounds rounding errors *)
SmoothAbs(rows, D, v) ==
    [d \in 1..D |-> SumF([i \in DOMAIN rows |-> AbsI(rows[i].y[d]) * Weight(rows[i], v)], Len(rows))]

(* the classifier, for targets which are class numbers 0..; its classes are those among the training rows, *)
(* in increasing order; the answer is a function from these classes to eighths                              *)
ClassesOf(rows) == {rows[i].y : i \in DOMAIN rows}
Prob8(rows, v) ==
    LET C == ClassesOf(rows)
        K == Cardinality(C)
        code == [c \in C |-> Cardinality({b \in C : b < c})]
        pick == SumF([i \in DOMAIN rows |-> code[rows[i].y] * Weight(rows[i], v)], Len(rows)) % K
        off(c) == (code[c] + K - pick) % K
    IN [c \in C |-> CASE K = 1 -> 8 [] K = 2 -> <<6, 2>>[off(c) + 1] [] K = 3 -> <<6, 1, 1>>[off(c) + 1] [] K = 4 -> <<4, 2, 1, 1>>[off(c) + 1]
                   [] OTHER -> IF off(c) = 0 THEN 9 - K ELSE 1]

(* the class it predicts *)
Pick(rows, v) == LET p == Prob8(rows, v) IN CHOOSE c \in DOMAIN p : \A b \in DOMAIN p : p[c] >= p[b]

(* training without the fold a row belongs to: unshuffled consecutive folds, the first n % k of them one larger *)
FoldOf(i, n, k) == LET q == n \div k
                       r == n % k
                   IN IF i <= r * (q + 1) THEN (i - 1) \div (q + 1) ELSE r + (i - 1 - r * (q + 1)) \div q
OutOfFold(rows, i, k) ==
    IF k <= 1 THEN rows
    ELSE LET n == Len(rows)
             R[j \in 0..n] == IF j = 0 THEN <<>> ELSE IF FoldOf(j, n, k) # FoldOf(i, n, k) THEN Append(R[j-1], rows[j]) ELSE R[j-1]
         IN R[n]
=============================================================================
