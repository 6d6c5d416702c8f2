----------------------------- MODULE UpliftJudge -----------------------------
(* curves and scores of uplift recorded from the code.  out: one sequence of *)
(* integers per score column, in units of 1/(U * e.scale); e.scale is the    *)
(* size of the end of the curve for normalised ones.                         *)
EXTENDS Uplift, TLC

B1(ok, name) == IF ok THEN {} ELSE {name}
With(e, c) == [i \in DOMAIN e.rows |-> [s |-> e.cols[c][i], y |-> e.rows[i].y, t |-> e.rows[i].t, e |-> e.rows[i].e]]
Unranked(e) == AnyScore(With(e, 1))
Near(a, b) == a - b <= 1 /\ b - a <= 1

(* both arms of the comparison and nothing else, unless the true effects are given (the qini curve still counts arms) *)
Fit(e) == /\ \A i \in DOMAIN e.rows : e.rows[i].t \in {0, 1}
          /\ \A t \in {0, 1} : \E i \in DOMAIN e.rows : e.rows[i].t = t
MustRefuse(e) == ~Fit(e) /\ (~e.te \/ e.fn = "qini")

ScaleOf(e) == IF e.norm THEN AbsV(End(Unranked(e), e.fn, e.te)) ELSE U

(* ---- curves *)
CurveOk(e, c) == \E o \in Orders(With(e, c)) :
    /\ e.out # <<>> => e.out[c] = Curve(With(e, c), e.fn, e.te, o)
    /\ e.tops # <<>> => \E k \in Best(With(e, c), e.fn, e.te, o) : e.tops[c] = With(e, c)[o[k]].s

RandomOk(e) ==
    \/ e.rand = <<>>
    \/ /\ Len(e.rand) = Len(e.rows) + 1
       /\ e.rand[1] = 0
       /\ Near(e.rand[Len(e.rand)], End(Unranked(e), e.fn, e.te))
       /\ \/ Len(e.rows) > 4
          \/ LET C == {Curve(Unranked(e), e.fn, e.te, o) : o \in Orders(Unranked(e))}
             IN \A k \in DOMAIN e.rand : /\ \E v \in C : v[k] <= e.rand[k] + 1
                                         /\ \E v \in C : v[k] >= e.rand[k] - 1

CurveFailed(e) ==
    IF MustRefuse(e) THEN B1(e.raised # "", "refuse")
    ELSE IF e.raised # "" THEN {"raised"}
    ELSE B1(e.scale = ScaleOf(e), "machinery") \cup B1(e.kept, "data changed")
      \cup B1((e.out # <<>> => Len(e.out) = Len(e.cols)) /\ (e.tops # <<>> => Len(e.tops) = Len(e.cols)) /\ \A c \in DOMAIN e.cols : CurveOk(e, c), "curve") \cup B1(RandomOk(e), "random")

(* ---- scores: mean height of the curve; qini less that of a random order, the same for all columns of one call *)
Sums(e, c) == {SumQ(Curve(With(e, c), e.fn, e.te, o)) : o \in Orders(With(e, c))}
AreaOk(e) == \A c \in DOMAIN e.cols : e.out[c] \in Sums(e, c)
QiniOk(e) ==
    LET lo == IF Len(e.rows) > 4 THEN {} ELSE {SumQ(Curve(Unranked(e), e.fn, e.te, o)) : o \in Orders(Unranked(e))}
    IN  \E s \in Sums(e, 1) :
          LET r == s - e.out[1]  \* what was taken off
          IN  /\ \A c \in DOMAIN e.cols : \E q \in Sums(e, c) : Near(q - e.out[c], r)
              /\ lo = {} \/ ((\E v \in lo : v <= r + 1) /\ (\E v \in lo : v >= r - 1))
ScoreFailed(e) ==
    IF MustRefuse(e) THEN B1(e.raised # "", "refuse")
    ELSE IF e.raised # "" THEN {"raised"}
    ELSE B1(e.scale = ScaleOf(e), "machinery") \cup B1(e.kept, "data changed")
      \cup B1(Len(e.out) = Len(e.cols) /\ (IF e.fn = "qini" THEN QiniOk(e) ELSE AreaOk(e)), "score")
      \cup B1(e.rand \in {<<>>, <<0>>}, "random")

UpliftFailed(e) == IF e.k = "curve" THEN CurveFailed(e) ELSE ScoreFailed(e)
=============================================================================
