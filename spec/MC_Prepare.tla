----------------------------- MODULE MC_Prepare -----------------------------
(* a small frame grows row by row and is prepared in every way; the laws    *)
(* which the rules of preparation obey together                             *)
EXTENDS Prepare
CONSTANTS N, Deep
VARIABLES a, b, c, y, o
vars == <<a, b, c, y, o>>

IntOf == {1, 2}
FloatOf == {1, 2, UP, NA}
TextOf == {"1", "x", NoText}
Base == [chars |-> <<"x">>, droplabel |-> TRUE, drop |-> <<>>, dup |-> TRUE, id |-> TRUE, const |-> TRUE, inf |-> TRUE, infto |-> NA, obj |-> TRUE, int |-> TRUE,
         reserve |-> <<>>]
Options == {Base, [Base EXCEPT !.chars = <<>>], [Base EXCEPT !.id = FALSE], [Base EXCEPT !.const = FALSE, !.droplabel = FALSE],
            [Base EXCEPT !.reserve = <<"a", "c">>, !.drop = <<"b">>], [Base EXCEPT !.dup = FALSE, !.id = FALSE, !.const = FALSE, !.obj = FALSE, !.chars = <<>>]}
Init == a = <<>> /\ b = <<>> /\ c = <<>> /\ y = <<>> /\ o \in Options
Next == /\ Len(a) < N
        /\ \E i \in IntOf, f \in (IF Deep THEN FloatOf ELSE FloatOf \ {2}), t \in TextOf, l \in {1, NA} :
             a' = Append(a, i) /\ b' = Append(b, f) /\ c' = Append(c, t) /\ y' = Append(y, l)
        /\ UNCHANGED o
Spec == Init /\ [][Next]_vars
Col(n, k, v) == [name |-> n, kind |-> k, cells |-> v]
Frame == <<Col("a", "int", a), Col("b", "float", b), Col("c", "text", c), Col("d", "int", a)>>
Label == <<Col("y", "float", y)>>
Fit == FitClean(o, Frame, Label)
Clean == a # <<>> /\ Fit.rows # <<>>

(* fitting data and applying what was learned to them is the same *)
ReplayOK == Clean => LET w == Fit
                         v == Apply(o, w.out, {}, Frame, Label)
                     IN v.rows = w.rows /\ v.label = w.label /\ v.out = w.out
(* what has to go is gone, what is reserved is there *)
GoneOK == Clean => LET w == Fit
                       free == Less(w.out, RangeOf(o.reserve))
                   IN /\ o.droplabel => NA \notin RangeOf(w.label[1].cells)
                      /\ RangeOf(Names(w.out)) \cap RangeOf(o.drop) = {}
                      /\ RangeOf(o.reserve) \ RangeOf(o.drop) \subseteq RangeOf(Names(w.out))
                      /\ o.dup => \A i, j \in DOMAIN free : i # j => ~Same(free[i], free[j]) \/ free[i].name = "b" \/ free[j].name = "b"
                                                                      \/ \E k \in DOMAIN free : free[k].name = "c"
                      /\ \A k \in DOMAIN free : free[k].kind # "int" /\ ~(free[k].kind = "float" /\ UP \in RangeOf(free[k].cells))
                      /\ o.obj /\ o.chars = <<"x">> => \A k \in DOMAIN free : free[k].kind = "float"
                      /\ \A k \in DOMAIN free : free[k].kind = "text" => NoText \notin RangeOf(free[k].cells)
(* a column never becomes another one: order and rows are those of the data *)
OrderOK == Clean => LET w == Fit IN
    /\ \A k \in 1..Len(w.out) - 1 : (CHOOSE i \in 1..4 : Frame[i].name = w.out[k].name) < (CHOOSE i \in 1..4 : Frame[i].name = w.out[k + 1].name)
    /\ \A k \in DOMAIN w.out : w.out[k].name = "a" => w.out[k].cells = At(a, w.rows)
(* withdrawing a column and asking again: all others as before *)
WithdrawnOK == Clean => LET w == Fit IN Apply(o, w.out, {"a"}, Frame, Label).out = Less(w.out, {"a"})

(* codes are distinct, in order, and decode to what they stand for *)
CodesOK == Len(b) = N => \A v \in RangeOf(b) \ {NA}, u \in RangeOf(b) :
    /\ Cardinality(Codes(b, v)) = 1
    /\ \A p \in Codes(b, v), q \in Codes(b, u) : (p < q) = (v < u) /\ (p = q => v = u) /\ Decode(b, "float", p) = v
    /\ \A p \in Codes(b, 77) : Decode(b, "float", p) = NA /\ p \notin UNION {Codes(b, w) : w \in RangeOf(b) \ {NA}}
    /\ Total(OneHot(b, 0, v)) = 1 /\ Total(OneHot(b, 0, 77)) = 0
(* an encoder learned from a mapped frame: names and columns agree, nothing is used twice *)
Fs == {<<>>} \cup {<<[cols |-> s, t |-> t, alias |-> ""]>> : s \in {<<"a">>, <<"d", "a">>}, t \in {"none", "pair", "total", "named", "less"}}
      \cup {<<[cols |-> <<"a">>, t |-> t, alias |-> "n"], [cols |-> <<"a", "d">>, t |-> "twice", alias |-> ""]>> : t \in {"pair", "total"}}
MapOK == Len(a) = N => \A fs \in Fs, default \in {"drop", "keep", "total"} :
    LET F == <<Frame[1], Frame[4]>>
        P == Plan(<<"a", "d">>, fs, default)
    IN P # <<>> => LET m == Mapped(P, F, F) IN
         /\ Len(m.names) = Len(m.cells)
         /\ \A k \in DOMAIN m.cells : Len(m.cells[k]) = N
         /\ default # "drop" => UNION {RangeOf(P[k].cols) : k \in DOMAIN P} = {"a", "d"}
         /\ \A i, j \in DOMAIN P : i # j => RangeOf(P[i].cols) \cap RangeOf(P[j].cols) = {}

Close1(p, q) == p - q <= 2 /\ q - p <= 2
(* scores: a and c as labels and predictions *)
D == [i \in DOMAIN c |-> IF c[i] = "1" THEN 1 ELSE 2]
ScoreOK == a # <<>> => LET A == Accuracy(a, D) IN
    /\ (A = Scale) = (a = D)
    /\ \A k \in {1, 2} : /\ Precision(a, D, k) = Recall(D, a, k)
                         /\ F1(a, D, k) = F1(D, a, k)
                         /\ F1(a, D, k) <= (Precision(a, D, k) + Recall(a, D, k)) \div 2 + 1
    /\ MSE(a, D) = MAE(a, D) /\ A + MAE(a, D) \in {Scale, Scale - 1}
    /\ RangeOf(a) = {1, 2} => Close1(AUC(a, D, 1) + AUC(a, D, 2), Scale) /\ R2(a, a) = Scale

(* tasks: nothing but the values counts, missing ones never *)
TaskOK == a # <<>> => /\ Task("float", b, {}) = Task("float", Append(b, NA), {})
                      /\ Task("int", a, {}) = (IF RangeOf(a) = {1, 2} THEN "binary" ELSE "none")
                      /\ Task("text", b, {UP}) = Task("text", SelectSeq(b, LAMBDA v : v # UP), {})
(* a higher bar selects fewer; the median splits *)
SelectOK == Len(b) = N => LET K == DOMAIN b
                              imp == [i \in K |-> IF b[i] = NA THEN 0 ELSE b[i]]
                          IN /\ AtLeast(imp, K, 2) \subseteq AtLeast(imp, K, 1)
                             /\ \A q \in 1..3 : 4 * Cardinality(AtLeast(imp, K, Quantile(imp, K, q, 4))) >= (N - 1) * (4 - q)
                             /\ \A k \in 1..N : HowMany(N, k, 1) = k /\ HowMany(N, k, N + 1) <= k
=============================================================================
