------------------------------ MODULE WhyJudge ------------------------------
(* what a Why object says, recorded from the code *)
EXTENDS Why, TLC
B1(ok, name) == IF ok THEN {} ELSE {name}
Model(e) == [rows |-> e.rows, w |-> e.w, v |-> e.v, mode |-> e.mode, target |-> e.target, scale |-> e.scale, cost |-> e.cost]

MinS(s) == LET S == RangeOf(s) IN CHOOSE a \in S : \A b \in S : a <= b
MaxS(s) == LET S == RangeOf(s) IN CHOOSE a \in S : \A b \in S : a >= b
Sum(s) == SumF(s, Len(s))
(* mean, extremes and spread of effects, in whole numbers *)
Summed(o, eff) ==
    /\ o.sum = Sum(eff) /\ o.min = MinS(eff) /\ o.max = MaxS(eff)
    /\ o.var = 0 - 1 \/ o.var = Len(eff) * Sum([i \in DOMAIN eff |-> eff[i] * eff[i]]) - Sum(eff) * Sum(eff)
Said(e, o, eff) == (e.ite \/ Summed(o, eff)) /\ (~(e.ite \/ e.detail) \/ o.all = eff)

FitFailed(e) ==
    LET a == e.asked
        dt == Settle(e.saidt, IsDiscrete(e.kinds[e.got.t[1]], e.uniq[e.got.t[1]], e.n))
        dy == Settle(e.saidy, IsDiscrete(e.kinds[e.y], e.uniq[e.y], e.n))
        disc(c) == IsDiscrete(e.kinds[c], e.uniq[c], e.n)
        found == IF e.custom THEN e.found ELSE EveryOther(e.all, e.y, e.got.t)
        want == RolesFor(a, e.got.t, found)
    IN IF e.got.t = <<>> THEN {"treatment"} ELSE
        B1(IF a.t # <<>> THEN e.got.t = a.t
           ELSE IF e.custom THEN e.got.t = e.found.t
           ELSE /\ Len(e.got.t) <= e.limit /\ Cardinality(RangeOf(e.got.t)) = Len(e.got.t) /\ RangeOf(e.got.t) \subseteq RangeOf(e.all) \ {e.y}
                /\ \A i \in DOMAIN e.got.t : disc(e.got.t[i]) = (IF e.saidt = "none" THEN disc(e.got.t[1]) ELSE e.saidt = "yes"), "treatment")
        \cup B1(e.got.w = want.w, "adjustment") \cup B1(e.got.v = want.v, "covariate") \cup B1(e.got.z = want.z, "instrument")
        \cup B1(e.got.y = e.y, "outcome")
        \cup B1(e.got.dt = dt, "discrete treatment") \cup B1(e.got.dy = dy, "discrete outcome")
        \cup B1(e.got.tlabels = (IF dt THEN [i \in DOMAIN e.got.t |-> e.labels[e.got.t[i]]] ELSE <<>>), "treatment labels")
        \cup B1(e.got.ylabels = (IF dy THEN e.labels[e.y] ELSE <<>>), "outcome labels")
        \cup B1({e.got.keys[i] : i \in DOMAIN e.got.keys} = Keys(e.got.t, dt), "estimators")
        \cup B1(e.auto => \A i \in DOMAIN e.got.est : e.got.est[i] = AutoKind(e.got.z, dt, dy), "estimator")
        \cup B1(e.fitted, "fitted")

(* the table of effects *)
TableFailed(e) ==
    LET M == Model(e)
        X == Asked(e.X, e.nt)
        F == [i \in DOMAIN e.tests |-> e.tests[i].f]
        P == [i \in DOMAIN e.tests |-> e.tests[i].p]
        pairs == IF e.combined THEN Combined(M, X, e.treat, e.control) ELSE Sequential(M, X, e.treat, e.control)
        eff(q) == Cost(M, DEff(M, q.x, q.t, q.c, F), P)
        unit(k) == LET u == Unit(M, X[k], F) IN Cost(M, [i \in DOMAIN u |-> u[i] * e.diff[k][i]], P)
    IN IF e.discrete
       THEN IF Len(e.out) # Len(pairs) THEN {"comparisons"}
            ELSE UNION {B1(e.out[k].x = pairs[k].x /\ e.out[k].t = pairs[k].t /\ e.out[k].c = pairs[k].c, "comparison")
                        \cup B1(Said(e, e.out[k], eff(pairs[k])), "effect") : k \in DOMAIN pairs}
       ELSE IF [k \in DOMAIN e.out |-> e.out[k].x] # [k \in DOMAIN X |-> <<X[k]>>] THEN {"comparison"}
            ELSE UNION {B1(Said(e, e.out[k], unit(k)), "effect") : k \in DOMAIN X}

WhatIfFailed(e) ==
    LET M == Model(e)
        x == IF e.X = <<>> THEN 1 ELSE e.X[1]
    IN B1(e.out = (IF e.discrete THEN WhatIf(M, x, e.tests, e.new) ELSE WhatIfContinuous(M, x, e.tests, e.new)), "outcome")
       \cup B1(e.index, "individuals")

IndividualFailed(e) ==
    LET M == Model(e) IN
    B1(IF e.discrete THEN e.out = Individual(M, e.tests, e.control) ELSE e.out = IndividualContinuous(M, e.tests, e.control), "effect")

UpliftFailed(e) ==
    LET M == Model(e)
        X == Asked(e.X, e.nt)
        want == Uplift(M, X, e.tests, e.treat, e.control)
    IN B1(e.out = want, "uplift") \cup B1(e.name = Default(e.treat, LastOf(M, X)), "name") \cup B1(e.score, "score")

PolicyFailed(e) ==
    LET M == Model(e)
        X == LET A == Asked(e.X, e.nt) IN IF Len(A) > 2 THEN <<A[1], A[2]>> ELSE A
        E == IF e.discrete THEN PolicyEffects(M, X, e.tests, e.control) ELSE PolicyEffectsContinuous(M, X, e.tests)
        labels == IF e.discrete THEN Product([i \in DOMAIN X |-> Labels(M, X[i])]) ELSE [i \in DOMAIN X |-> <<X[i]>>]
        worth == [k \in DOMAIN E |-> Sum(E[k])]
        best == {labels[k] : k \in {a \in DOMAIN E : \A b \in DOMAIN E : worth[a] >= worth[b]}}
        told == [k \in DOMAIN E |-> Sum([i \in DOMAIN e.tests |-> e.out[i][k]])]
    IN IF \E i \in DOMAIN e.out : Len(e.out[i]) # Len(E) THEN {"shape"} ELSE
       B1(Len(e.out) = Len(e.tests) /\ told = [k \in DOMAIN E |-> e.per * worth[k]], "total effect")
       \cup (IF e.root THEN B1(\A i \in DOMAIN e.out : \A k \in DOMAIN E : Len(e.tests) * e.out[i][k] = e.per * worth[k], "effect")
                            \cup B1(\A i \in DOMAIN e.decide : e.decide[i] \in best, "decision")
             ELSE B1(\A i, j \in DOMAIN e.out : AtCols(e.tests[i].f, e.v) = AtCols(e.tests[j].f, e.v) => e.out[i] = e.out[j], "alike")
                  \cup B1(\A i \in DOMAIN e.decide : e.decide[i] \in {labels[k] : k \in {a \in DOMAIN E : \A b \in DOMAIN E : e.out[i][a] >= e.out[i][b]}}, "decision"))

WhyFailed(e) ==
    IF e.raised # "" THEN {"raised " \o e.raised}
    ELSE B1(e.kept, "arguments changed")
         \cup (CASE e.k = "fit" -> FitFailed(e) [] e.k = "table" -> TableFailed(e) [] e.k = "whatif" -> WhatIfFailed(e)
                 [] e.k = "individual" -> IndividualFailed(e) [] e.k = "uplift" -> UpliftFailed(e) [] e.k = "policy" -> PolicyFailed(e))
=============================================================================
