------------------------------- MODULE Uplift -------------------------------
(* How uplift is measured.  Individuals are records                          *)
(*   [s: rank of the score, y: outcome, t: 1 treated / 0 control,            *)
(*    e: true effect].                                                       *)
(* They are put in an order of falling scores (any order among equals); the  *)
(* curves are functions of the first k of them.  All curve values are in     *)
(* units of 1/U, which makes them integers for up to 8 individuals.          *)
EXTENDS Integers, Sequences, FiniteSets

U == 5040

RECURSIVE SumQ(_)
SumQ(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumQ(Tail(q))
AbsV(x) == IF x < 0 THEN 0 - x ELSE x

Tops(R, S) == {i \in S : \A j \in S : R[j].s <= R[i].s}

(* the orders of falling scores *)
RECURSIVE OrdersOf(_, _)
OrdersOf(R, S) ==
    IF S = {} THEN {<<>>}
    ELSE UNION {{<<i>> \o o : o \in OrdersOf(R, S \ {i})} : i \in Tops(R, S)}
Orders(R) == OrdersOf(R, DOMAIN R)

(* the first k of an order: how many of each arm, their outcomes and effects *)
Met(R, i) == [nt |-> IF R[i].t = 1 THEN 1 ELSE 0, nc |-> IF R[i].t = 0 THEN 1 ELSE 0,
              yt |-> IF R[i].t = 1 THEN R[i].y ELSE 0, yc |-> IF R[i].t = 0 THEN R[i].y ELSE 0, ef |-> R[i].e]
Plus(a, b) == [nt |-> a.nt + b.nt, nc |-> a.nc + b.nc, yt |-> a.yt + b.yt, yc |-> a.yc + b.yc, ef |-> a.ef + b.ef]
RECURSIVE WalkFrom(_, _, _, _)
WalkFrom(R, o, acc, done) ==
    IF o = <<>> THEN done
    ELSE LET now == Plus(acc, Met(R, Head(o))) IN WalkFrom(R, Tail(o), now, Append(done, now))
Walk(R, o) == WalkFrom(R, o, [nt |-> 0, nc |-> 0, yt |-> 0, yc |-> 0, ef |-> 0], <<>>)

(* is the curve defined by them?  A comparison of arms needs both *)
KnownBy(fn, te, m) ==
    \/ te
    \/ fn = "qini" /\ m.nc > 0
    \/ fn # "qini" /\ m.nc > 0 /\ m.nt > 0

ValueOf(fn, te, m, k) ==
    IF te
    THEN CASE fn = "lift" -> (m.ef * U) \div k
           [] fn = "gain" -> m.ef * U
           [] fn = "qini" -> (m.ef * m.nt * U) \div k
    ELSE CASE fn = "lift" -> (m.yt * U) \div m.nt - (m.yc * U) \div m.nc
           [] fn = "gain" -> k * ((m.yt * U) \div m.nt - (m.yc * U) \div m.nc)
           [] fn = "qini" -> m.yt * U - (m.yc * m.nt * U) \div m.nc

Known(R, fn, te, o, k) == KnownBy(fn, te, Walk(R, o)[k])
Value(R, fn, te, o, k) == ValueOf(fn, te, Walk(R, o)[k], k)
Count(R, o, k, t) == IF t = 1 THEN Walk(R, o)[k].nt ELSE Walk(R, o)[k].nc

(* heights, from the first known one back to zero in a straight line *)
RECURSIVE LineTo(_, _, _)
LineTo(v, m, k) == IF k = 0 THEN <<0>> ELSE Append(LineTo(v, m, k - 1), (k * v) \div m)
RECURSIVE Rise(_, _, _, _, _)
Rise(W, fn, te, k, done) ==
    IF k > Len(W) THEN done
    ELSE IF ~KnownBy(fn, te, W[k]) THEN Rise(W, fn, te, k + 1, done)
    ELSE LET v == ValueOf(fn, te, W[k], k)
         IN  Rise(W, fn, te, k + 1, Append(IF Len(done) = k THEN done ELSE LineTo(v, k, k - 1), v))

(* the curve: zero for nobody; a straight line until both arms are met *)
Curve(R, fn, te, o) == Rise(Walk(R, o), fn, te, 1, <<0>>)

Some(n) == [k \in 1..n |-> k]
(* the end of the curve, the same for every order *)
End(R, fn, te) == Value(R, fn, te, Some(Len(R)), Len(R))

(* positions of the order with the best defined value *)
Best(R, fn, te, o) ==
    LET W == Walk(R, o)
        C == Rise(W, fn, te, 1, <<0>>)
        K == {k \in 1..Len(o) : KnownBy(fn, te, W[k])}
    IN  {k \in K : \A j \in K : C[j + 1] <= C[k + 1]}

(* a score which ranks at random: any order *)
AnyScore(R) == [i \in DOMAIN R |-> [s |-> 0, y |-> R[i].y, t |-> R[i].t, e |-> R[i].e]]
=============================================================================
