--------------------------------- MODULE Why ---------------------------------
(* The all-in-one interface: it settles the roles of the columns, encodes     *)
(* treatments and outcome, fits one estimator per treatment (and per ordered  *)
(* pair of discrete treatments) and answers questions in the user's own       *)
(* labels.  Columns and treatments are numbers here; a label is its rank.     *)
(* A row is [f |-> every column, t |-> codes of the treatments, x |-> their   *)
(* numbers when continuous, y |-> outcome].                                   *)
EXTENDS DoubleML

RangeOf(s) == {s[i] : i \in DOMAIN s}
Without(s, S) == Select(s, LAMBDA c : c \notin S)
AtCols(s, C) == [i \in DOMAIN C |-> s[C[i]]]

(* -------- roles -------- *)
(* a column with k different values among n *)
Few(k, n) == k <= 2 \/ (k = 3 /\ n >= 18) \/ (k = 4 /\ n >= 38) \/ (k = 5 /\ n >= 68)
IsDiscrete(kind, k, n) == CASE kind = "text" -> TRUE [] kind = "float" -> k = 2 [] OTHER -> Few(k, n)
Settle(said, inferred) == IF said = "none" THEN inferred ELSE said = "yes"

(* asked: [t, w, v, z]; found(T): what the identifier says *)
NoneAsked(a, T) == \A k \in {"w", "v", "z"} : Without(a[k], T) = <<>>
RolesFor(a, T, found) ==
    IF NoneAsked(a, RangeOf(T)) THEN [t |-> T, w |-> found.w, v |-> found.v, z |-> found.z]
    ELSE [t |-> T, w |-> Without(a.w, RangeOf(T)), v |-> Without(a.v, RangeOf(T)), z |-> Without(a.z, RangeOf(T))]
(* the default identifier: every other column is a covariate *)
EveryOther(all, y, T) == [w |-> <<>>, v |-> Without(all, RangeOf(T) \cup {y}), z |-> <<>>]

Keys(T, discrete) == {<<x>> : x \in RangeOf(T)} \cup (IF discrete THEN {<<p[1], p[2]>> : p \in {q \in RangeOf(T) \X RangeOf(T) : q[1] # q[2]}} ELSE {})
AutoKind(z, dt, dy) == IF z # <<>> THEN "iv" ELSE IF dt \/ dy THEN "tlearner" ELSE "dml"

(* -------- estimators: a T-learner for discrete, double machine learning for continuous treatments -------- *)
(* M: [rows, w, v (columns), mode, target] *)
For(M, x) == Map(M.rows, LAMBDA r : [f |-> AtCols(r.f, M.w \o M.v), v |-> AtCols(r.f, M.v), t |-> IF r.t = <<>> THEN <<>> ELSE AtCols(r.t, x),
                                     x |-> IF r.x = <<>> THEN <<>> ELSE AtCols(r.x, x), y |-> r.y])
At(M, F) == Map(F, LAMBDA f : AtCols(f, M.w \o M.v))
AtV(M, F) == Map(F, LAMBDA f : AtCols(f, M.v))

(* effect of labels t against c of the treatments x for individuals with columns F *)
DEff(M, x, t, c, F) ==
    LET R == For(M, x) IN
    IF t = c THEN [i \in DOMAIN F |-> 0]
    ELSE Map(At(M, F), LAMBDA f : TEffect(R, 1, M.mode, t, c, f)[M.target])
(* effect of one unit of treatment x *)
Unit(M, x, F) ==
    LET R == For(M, <<x>>)
        C == Coef(XRes(R, <<>>, FALSE, 1), YRes(R, 1, FALSE, 1), R, FALSE)
    IN Map(AtV(M, F), LAMBDA v : Fij(C, v, FALSE)[1][1])

(* the user's cost function of these checks: twice the effect minus the price of the individual *)
Cost(M, e, p) == IF M.cost THEN [i \in DOMAIN e |-> 2 * e[i] - M.scale * p[i]] ELSE e

(* -------- which comparisons a question asks for -------- *)
Labels(M, x) == SortNum({M.rows[i].t[x] : i \in DOMAIN M.rows})
First(M, X) == [i \in DOMAIN X |-> Labels(M, X[i])[1]]
LastOf(M, X) == [i \in DOMAIN X |-> Labels(M, X[i])[Len(Labels(M, X[i]))]]
Default(s, d) == IF s = <<>> THEN d ELSE s
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
RECURSIVE Product(_)
Product(S) == IF S = <<>> THEN <<<<>>>>
              ELSE LET rest == Product(Tail(S)) IN Cat([i \in DOMAIN Head(S) |-> [j \in DOMAIN rest |-> <<Head(S)[i]>> \o rest[j]]])

Sequential(M, X, treat, control) ==
    LET c == Default(control, First(M, X))
        per(i) == LET L == IF treat # <<>> THEN <<treat[i]>> ELSE Without(Labels(M, X[i]), {c[i]})
                  IN [j \in DOMAIN L |-> [x |-> <<X[i]>>, t |-> <<L[j]>>, c |-> <<c[i]>>]]
    IN Cat([i \in DOMAIN X |-> per(i)])
Combined(M, X, treat, control) ==
    LET c == Default(control, First(M, X))
        L == IF treat # <<>> THEN <<treat>> ELSE Product([i \in DOMAIN X |-> Labels(M, X[i])])
    IN LET K == Without(L, {c}) IN [j \in DOMAIN K |-> [x |-> X, t |-> K[j], c |-> c]]

Asked(X, n) == IF X = <<>> THEN [i \in 1..n |-> i] ELSE X

(* -------- answers -------- *)
(* what would the outcome be, had treatment x been new; one value per individual, times the unit *)
WhatIf(M, x, tests, new) ==
    [i \in DOMAIN tests |->
        LET r == tests[i]
            e == Cost(M, DEff(M, <<x>>, <<new[i]>>, <<r.t[x]>>, <<r.f>>), <<r.p>>)
        IN M.scale * r.y[1] + e[1]]
WhatIfContinuous(M, x, tests, new) ==
    [i \in DOMAIN tests |->
        LET r == tests[i]
            e == Cost(M, <<Unit(M, x, <<r.f>>)[1] * (new[i] - r.x[x])>>, <<r.p>>)
        IN r.y[1] + e[1]]

(* the effect of everyone's own treatment against the control *)
Individual(M, tests, control) ==
    LET n == Len(tests[1].t)
        c == Default(control, First(M, Asked(<<>>, n)))
    IN Cat([i \in DOMAIN tests |-> [x \in 1..n |->
           [i |-> i, x |-> x, t |-> tests[i].t[x], c |-> c[x], e |-> DEff(M, <<x>>, <<tests[i].t[x]>>, <<c[x]>>, <<tests[i].f>>)[1]]]])
IndividualContinuous(M, tests, control) ==
    LET n == Len(tests[1].x)
        c == Default(control, [x \in 1..n |-> 0])
    IN [i \in DOMAIN tests |-> [x \in 1..n |-> Unit(M, x, <<tests[i].f>>)[1] * (tests[i].x[x] - c[x])]]

(* individuals of the two arms, with effect, arm and outcome *)
Uplift(M, X, tests, treat, control) ==
    LET t == Default(treat, LastOf(M, X))
        c == Default(control, First(M, X))
        I == Select([i \in DOMAIN tests |-> i], LAMBDA i : AtCols(tests[i].t, X) \in {t, c})
        e == DEff(M, X, t, c, [k \in DOMAIN I |-> tests[I[k]].f])
    IN [k \in DOMAIN I |-> [i |-> I[k], e |-> e[k], x |-> IF AtCols(tests[I[k]].t, X) = t THEN 1 ELSE 0, y |-> tests[I[k]].y[1]]]

(* one column of effects per combination of labels, or per continuous treatment *)
PolicyEffects(M, X, tests, control) ==
    LET F == [i \in DOMAIN tests |-> tests[i].f]
        P == [i \in DOMAIN tests |-> tests[i].p]
        c == Default(control, First(M, X))
        L == Product([i \in DOMAIN X |-> Labels(M, X[i])])
    IN [k \in DOMAIN L |-> Cost(M, DEff(M, X, L[k], c, F), P)]
PolicyEffectsContinuous(M, X, tests) ==
    LET F == [i \in DOMAIN tests |-> tests[i].f]
        P == [i \in DOMAIN tests |-> tests[i].p]
    IN [k \in DOMAIN X |-> Cost(M, Unit(M, X[k], F), P)]
=============================================================================
