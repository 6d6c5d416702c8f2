---------------------------- MODULE MetaLearner ----------------------------
(* S-, T- and X-learners over an abstract learner (Learner.tla), and the     *)
(* permuted versions which hold one learner per pair of treatments.          *)
(* A row is [f |-> features, t |-> arm, y |-> outcomes]; an arm is the tuple *)
(* of the codes of its treatments (the rank of each label among the sorted   *)
(* labels); outcomes are integers, or one class number when probabilities    *)
(* are asked for.  Probabilities are counted in eighths, rho in quarters.    *)
EXTENDS Learner

RECURSIVE LexLess(_, _)
LexLess(a, b) == IF a = <<>> THEN FALSE
                 ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE LexLess(Tail(a), Tail(b))
RECURSIVE SortLex(_)
SortLex(S) == IF S = {} THEN <<>>
              ELSE LET m == CHOOSE a \in S : \A b \in S \ {a} : LexLess(a, b) IN <<m>> \o SortLex(S \ {m})

ArmsOf(rows) == {rows[i].t : i \in DOMAIN rows}
(* every combination of the labels each treatment has *)
RECURSIVE Combos(_, _)
Combos(rows, n) == IF n = 0 THEN {<<>>}
                   ELSE {Append(a, v) : a \in Combos(rows, n - 1), v \in {rows[i].t[n] : i \in DOMAIN rows}}
AllArms(rows) == SortLex(Combos(rows, Len(rows[1].t)))

Group(rows, a) == Select(rows, LAMBDA r : r.t = a)
Reg(rows) == Map(rows, LAMBDA r : [x |-> r.f, y |-> r.y])
Cls(rows) == Map(rows, LAMBDA r : [x |-> r.f, y |-> r.y[1]])
RegT(rows) == Map(rows, LAMBDA r : [x |-> <<r.f, r.t>>, y |-> r.y])
ClsT(rows) == Map(rows, LAMBDA r : [x |-> <<r.f, r.t>>, y |-> r.y[1]])

RECURSIVE SortNum(_)
SortNum(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE a \in S : \A b \in S : a <= b IN <<m>> \o SortNum(S \ {m})
Vec(p) == [i \in 1..Cardinality(DOMAIN p) |-> p[SortNum(DOMAIN p)[i]]]

Minus(a, b) == [d \in DOMAIN a |-> a[d] - b[d]]
Plus(a, b) == [d \in DOMAIN a |-> a[d] + b[d]]
Times(k, a) == [d \in DOMAIN a |-> k * a[d]]

(* the answer of the plugged-in model trained on R (features per row as in r.x), for a query *)
(* mode: "reg" numbers, "proba" a probability per class, "label" the predicted class as a number *)
Out(mode, R, D, v) == CASE mode = "proba" -> Vec(Prob8(R, v)) [] mode = "label" -> <<Pick(R, v)>> [] OTHER -> Smooth(R, D, v)
One(mode, G) == IF mode = "reg" THEN Reg(G) ELSE Cls(G)
(* the models of effects are trained on numbers; a classifier there answers with one of them *)
Last(mode, H, n, v) == IF mode = "label" THEN <<Pick(Map(H, LAMBDA r : [x |-> r.x, y |-> r.y[1]]), v)>> ELSE Smooth(H, n, v)

SEffect(rows, D, mode, t, c, f) ==
    LET R == IF mode = "reg" THEN RegT(rows) ELSE ClsT(rows)
    IN Minus(Out(mode, R, D, <<f, t>>), Out(mode, R, D, <<f, c>>))

TEffect(rows, D, mode, t, c, f) ==
    Minus(Out(mode, One(mode, Group(rows, t)), D, f), Out(mode, One(mode, Group(rows, c)), D, f))

(* the observed outcome on the scale of the model's answer *)
Seen(mode, C, y) == IF mode = "proba" THEN [i \in DOMAIN C |-> IF C[i] = y[1] THEN 8 ELSE 0] ELSE y

(* imputed effects of the treated and of the controls, smoothed and mixed: in quarters *)
XEffects(rows, D, mode, t, c, rho4, F) ==
    LET GT == Group(rows, t)
        GC == Group(rows, c)
        C == SortNum({GT[i].y[1] : i \in DOMAIN GT})
        MT == One(mode, GT)
        MC == One(mode, GC)
        HT == Map(GT, LAMBDA r : [x |-> r.f, y |-> Minus(Seen(mode, C, r.y), Out(mode, MC, D, r.f))])
        HC == Map(GC, LAMBDA r : [x |-> r.f, y |-> Minus(Out(mode, MT, D, r.f), Seen(mode, C, r.y))])
        n == IF mode = "proba" THEN Len(C) ELSE D
    IN Map(F, LAMBDA f : Plus(Times(rho4, Last(mode, HT, n, f)), Times(4 - rho4, Last(mode, HC, n, f))))

(* effects of arm t against arm c for every tested individual; the unit is 1 or 8, times 4 for the X-learner *)
Effects(learner, rows, D, mode, t, c, rho4, F) ==
    CASE learner = "S" -> Map(F, LAMBDA f : SEffect(rows, D, mode, t, c, f))
      [] learner = "T" -> Map(F, LAMBDA f : TEffect(rows, D, mode, t, c, f))
      [] learner = "X" -> XEffects(rows, D, mode, t, c, rho4, F)

Columns(M) == [i \in DOMAIN M |-> [d \in DOMAIN M[i] |-> <<M[i][d]>>]]
Beside(M, N) == [i \in DOMAIN M |-> [d \in DOMAIN M[i] |-> Append(M[i][d], N[i][d])]]
=============================================================================
