------------------------------ MODULE Prepare ------------------------------
(* Preparing data: cleaning, encoding, mapping and selecting columns, and    *)
(* telling the task from a label.  A column is [name, kind, cells]; the      *)
(* cells of text (and category) columns are strings, all others numbers.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NA == 2147483647     \* a missing number
UP == 1000000        \* infinite
DOWN == 0 - 1000000
NoText == "<missing>"
Textual(k) == k \in {"text", "category"}
Missing(k, v) == IF Textual(k) THEN v = NoText ELSE v = NA

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Total(s) == SumTo(s, Len(s))
RangeOf(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
RECURSIVE Join(_, _)
Join(ss, n) == IF n = 0 THEN <<>> ELSE Join(ss, n - 1) \o ss[n]
Concat(ss) == Join(ss, Len(ss))
At(s, I) == [i \in DOMAIN I |-> s[I[i]]]
Named(F, n) == F[CHOOSE i \in DOMAIN F : F[i].name = n]
Names(F) == [i \in DOMAIN F |-> F[i].name]

(* ---------------------------------------------------------------- cleaning *)
(* kind "object": numbers kept as objects *)
(* o: [chars, droplabel, drop, dup, id, const, inf, infto, obj, int, reserve] *)
Numerals == [s \in {"0", "1", "2", "3", "4", "5", "7", "10", "-1"} |->
             CASE s = "0" -> 0 [] s = "1" -> 1 [] s = "2" -> 2 [] s = "3" -> 3 [] s = "4" -> 4 [] s = "5" -> 5
               [] s = "7" -> 7 [] s = "10" -> 10 [] s = "-1" -> 0 - 1]
Readable(v) == v = NoText \/ v \in DOMAIN Numerals
Read(v) == IF v = NoText THEN NA ELSE Numerals[v]

Chars(o, c) == IF Textual(c.kind) THEN [c EXCEPT !.cells = [i \in DOMAIN c.cells |-> IF c.cells[i] \in RangeOf(o.chars) THEN NoText ELSE c.cells[i]]] ELSE c
(* y: a column, or <<>> when there is no label *)
Kept(o, y, n) == IF y = <<>> THEN [i \in 1..n |-> i]
                 ELSE LET l == Chars(o, y[1]) IN SelectSeq([i \in 1..n |-> i], LAMBDA i : ~(o.droplabel /\ Missing(l.kind, l.cells[i])))
Rows(c, I) == [c EXCEPT !.cells = At(c.cells, I)]
Values(c) == {v \in RangeOf(c.cells) : ~Missing(c.kind, v)}

Same(a, b) == IF Textual(a.kind) = Textual(b.kind) THEN a.cells = b.cells ELSE Values(a) = {} /\ Values(b) = {}
Copies(F) == {F[i].name : i \in {j \in DOMAIN F : \E k \in 1..(j - 1) : Same(F[j], F[k])}}
(* more than 99 of 100 rows have a value of their own *)
Identifiers(F) == {c.name : c \in {d \in RangeOf(F) : d.kind # "float" /\ 100 * Cardinality(Values(d)) > 99 * Len(d.cells)}}
Constants(F) == {c.name : c \in {d \in RangeOf(F) : Cardinality(Values(d)) <= 1}}
Less(F, S) == SelectSeq(F, LAMBDA c : c.name \notin S)

Finite(o, c) == IF o.inf /\ c.kind \in {"float", "object"} THEN [c EXCEPT !.cells = [i \in DOMAIN c.cells |-> IF c.cells[i] \in {UP, DOWN} THEN o.infto ELSE c.cells[i]]] ELSE c
AsFloat(c) == IF ~Textual(c.kind) THEN [c EXCEPT !.kind = "float"]
              ELSE IF \A v \in RangeOf(c.cells) : Readable(v) THEN [name |-> c.name, kind |-> "float", cells |-> [i \in DOMAIN c.cells |-> Read(c.cells[i])]]
              ELSE c
AsInt(c) == IF Textual(AsFloat(c).kind) THEN c ELSE IF {NA, UP, DOWN} \cap RangeOf(AsFloat(c).cells) # {} THEN c ELSE [AsFloat(c) EXCEPT !.kind = "int"]
AsWritten(c) == IF c.kind = "text" THEN [c EXCEPT !.cells = [i \in DOMAIN c.cells |-> IF c.cells[i] = NoText THEN "nan" ELSE c.cells[i]]] ELSE c
Written(c) == IF c.kind = "int" THEN [name |-> c.name, kind |-> "text", cells |-> [i \in DOMAIN c.cells |-> ToString(c.cells[i])]] ELSE c
(* as learned: the kind the column had after fitting *)
As(c, kind) == CASE kind = c.kind -> c [] kind = "float" -> AsFloat(c) [] kind = "int" -> AsInt(c)
                 [] kind = "text" -> (IF c.kind = "category" THEN [c EXCEPT !.kind = "text"] ELSE Written(c)) [] kind = "category" -> (IF c.kind = "text" THEN [c EXCEPT !.kind = "category"] ELSE c) [] OTHER -> c
Converted(o, c, reserved) ==
    IF reserved THEN c
    ELSE LET d == IF c.kind = "int" /\ o.int THEN AsFloat(c) ELSE c IN AsWritten(d)

FitClean(o, F0, y) ==
    LET n == IF F0 = <<>> THEN 0 ELSE Len(F0[1].cells)
        I == Kept(o, y, n)
        R == RangeOf(o.reserve)
        F1 == Less([k \in DOMAIN F0 |-> Rows(Chars(o, F0[k]), I)], RangeOf(o.drop))
        D == IF o.dup THEN Copies(F1) \ R ELSE {}
        F2 == Less(F1, D)
        U == IF o.id THEN Identifiers(F2) \ R ELSE {}
        F3 == Less(F2, U)
        K == IF o.const THEN Constants(F3) \ R ELSE {}
        F4 == Less(F3, K)
        out == [k \in DOMAIN F4 |-> LET c == Finite(o, F4[k])
                                        d == IF o.obj /\ c.kind \in {"text", "object"} /\ c.name \notin R THEN AsFloat(c) ELSE c
                                    IN Converted(o, d, c.name \in R)]
    IN [rows |-> I, label |-> IF y = <<>> THEN <<>> ELSE <<Rows(Chars(o, y[1]), I)>>, out |-> out,
        dup |-> D, id |-> U, const |-> K]

(* learned: what FitClean put out; gone: columns withdrawn since *)
Apply(o, learned, gone, F0, y) ==
    LET n == IF F0 = <<>> THEN 0 ELSE Len(F0[1].cells)
        I == Kept(o, y, n)
        L == Less(learned, gone)
    IN [rows |-> I, label |-> IF y = <<>> THEN <<>> ELSE <<Rows(Chars(o, y[1]), I)>>,
        out |-> [k \in DOMAIN L |-> LET c == Finite(o, Rows(Chars(o, Named(F0, L[k].name)), I))
                                        d == IF o.obj THEN As(c, L[k].kind) ELSE c
                                    IN Converted(o, d, c.name \in RangeOf(o.reserve))]]

(* ---------------------------------------------------------------- encoding *)
Seen(cells) == Sorted(RangeOf(cells) \ {NA})
(* rank among the seen, or one more than all of them *)
Codes(cells, v) == LET S == Seen(cells)
                       all == Len(S) + (IF NA \in RangeOf(cells) THEN 1 ELSE 0)
                   IN IF v = NA THEN Len(S)..all
                      ELSE IF v \in RangeOf(S) THEN {(CHOOSE i \in DOMAIN S : S[i] = v) - 1} ELSE {all}
(* kind: "int" has no missing values, -1 stands for them *)
Decode(cells, kind, code) == LET S == Seen(cells) IN
    IF code # NA /\ code >= 0 /\ code < Len(S) THEN S[code + 1] ELSE IF kind = "int" THEN 0 - 1 ELSE NA
OneHot(cells, first, v) == LET S == Seen(cells) IN [i \in 1..(Len(S) - first) |-> IF S[i + first] = v THEN 1 ELSE 0]

(* ---------------------------------------------------------------- preprocessing *)
(* texts are ranks here, 0 is the empty text; missing texts are empty *)
Filled(cells) == [i \in DOMAIN cells |-> IF cells[i] = NA THEN 0 ELSE cells[i]]
Order(F) == SelectSeq(F, LAMBDA c : Textual(c.kind)) \o SelectSeq(F, LAMBDA c : c.kind = "bool") \o SelectSeq(F, LAMBDA c : c.kind \in {"int", "float"})
Known(cells) == SelectSeq(cells, LAMBDA v : v # NA)
(* the value as a fraction [over, under] *)
Number(cells, v) == IF v = NA THEN [over |-> Total(Known(cells)), under |-> Len(Known(cells))] ELSE [over |-> v, under |-> 1]
(* standardized: over / sqrt(root), with the missing values at the mean *)
Standard(cells, v) ==
    LET K == Known(cells)
        n == Len(cells)
        m == Len(K)
        S == Total(K)
        Q == Total([i \in DOMAIN K |-> K[i] * K[i]])
    \* mean S/m; sum of squares about it over n rows is Q - S*S/m; variance (m*Q - S*S)/(m*n)
    IN [over |-> IF v = NA THEN 0 ELSE v * m - S, root |-> m * Q - S * S, m |-> m, n |-> n]

(* ---------------------------------------------------------------- mapping columns *)
(* one transformer applied to columns X (sequences of cells), learned from L *)
Twice(X) == [k \in DOMAIN X |-> [i \in DOMAIN X[k] |-> 2 * X[k][i]]]
Transformed(t, L, X) ==
    CASE t \in {"none", "keep"} -> X
      [] t = "twice" -> Twice(X)
      [] t = "pair" -> X \o [k \in DOMAIN X |-> [i \in DOMAIN X[k] |-> 10 + X[k][i]]]
      [] t = "total" -> <<[i \in DOMAIN X[1] |-> Total([k \in DOMAIN X |-> X[k][i]])]>>
      [] t = "less" -> [k \in DOMAIN X |-> [i \in DOMAIN X[k] |-> X[k][i] - Total(L[k])]]
      [] t = "named" -> X \o X
      [] t = "twice,less" -> [k \in DOMAIN X |-> [i \in DOMAIN X[k] |-> 2 * X[k][i] - 2 * Total(L[k])]]
      [] t = "less,total" -> <<[i \in DOMAIN X[1] |-> Total([k \in DOMAIN X |-> X[k][i] - Total(L[k])])]>>
      [] OTHER -> X
Width(t, n) == CASE t \in {"pair", "named"} -> 2 * n [] t \in {"total", "less,total"} -> 1 [] OTHER -> n
RECURSIVE Joined(_)
Joined(ns) == IF Len(ns) = 1 THEN ns[1] ELSE ns[1] \o "_" \o Joined(Tail(ns))
OutNames(t, cols, alias) ==
    LET base == IF alias # "" THEN alias ELSE Joined(cols)
        w == Width(t, Len(cols))
    IN IF w = 1 THEN <<base>>
       ELSE IF t = "named" THEN [i \in 1..w |-> IF i <= Len(cols) THEN cols[i] \o "!" ELSE cols[i - Len(cols)] \o "?"]
       ELSE IF w = Len(cols) THEN cols
       ELSE [i \in 1..w |-> base \o "_" \o ToString(i - 1)]
(* every feature takes the columns which no feature before it took *)
RECURSIVE Taken(_, _)
Taken(fs, k) == IF k = 0 THEN {} ELSE Taken(fs, k - 1) \cup RangeOf(fs[k].cols)
Plan(all, fs, default) ==
    LET P == [k \in DOMAIN fs |-> [cols |-> SelectSeq(fs[k].cols, LAMBDA c : c \notin Taken(fs, k - 1)), t |-> fs[k].t, alias |-> fs[k].alias]]
        rest == SelectSeq(all, LAMBDA c : c \notin Taken(fs, Len(fs)))
    IN SelectSeq(P \o (IF default = "drop" THEN <<>> ELSE <<[cols |-> rest, t |-> default, alias |-> ""]>>), LAMBDA p : p.cols # <<>>)
Cells(F, cols) == [i \in DOMAIN cols |-> Named(F, cols[i]).cells]
Mapped(P, L, F) == [names |-> Concat([k \in DOMAIN P |-> OutNames(P[k].t, P[k].cols, P[k].alias)]),
                    cells |-> Concat([k \in DOMAIN P |-> Transformed(P[k].t, Cells(L, P[k].cols), Cells(F, P[k].cols))])]

(* ---------------------------------------------------------------- tasks and scores *)
(* as many values as n^0.382 rows are still classes *)
Few(k, n) == k <= 2 \/ (k = 3 /\ n >= 18) \/ (k = 4 /\ n >= 38) \/ (k = 5 /\ n >= 68)
Task(kind, cells, out) ==
    LET U == (RangeOf(cells) \ {NA}) \ out
        k == Cardinality(U)
    IN IF k < 2 THEN "none"
       ELSE IF k = 2 THEN "binary"
       ELSE IF kind = "float" THEN "regression"
       ELSE IF kind = "int" THEN IF Few(k, Len(cells)) THEN "multiclass" ELSE "regression"
       ELSE "multiclass"
Labels(cells, out) == Sorted((RangeOf(cells) \ {NA}) \ out)

Scale == 100000
Part(a, b) == IF b = 0 THEN 0 ELSE (Scale * a) \div b
Count(y, Test(_)) == Cardinality({i \in DOMAIN y : Test(i)})
TP(y, p, c) == Count(y, LAMBDA i : y[i] = c /\ p[i] = c)
Precision(y, p, c) == Part(TP(y, p, c), Count(y, LAMBDA i : p[i] = c))
Recall(y, p, c) == Part(TP(y, p, c), Count(y, LAMBDA i : y[i] = c))
F1(y, p, c) == Part(2 * TP(y, p, c), Count(y, LAMBDA i : p[i] = c) + Count(y, LAMBDA i : y[i] = c))
Mean(s) == Total(s) \div Len(s)
Accuracy(y, p) == Part(Count(y, LAMBDA i : y[i] = p[i]), Len(y))
Abs(a) == IF a < 0 THEN 0 - a ELSE a
MAE(y, p) == Part(Total([i \in DOMAIN y |-> Abs(y[i] - p[i])]), Len(y))
SSE(y, p) == Total([i \in DOMAIN y |-> (y[i] - p[i]) * (y[i] - p[i])])
MSE(y, p) == Part(SSE(y, p), Len(y))
R2(y, p) == LET n == Len(y) IN Scale - Part(n * SSE(y, p), n * Total([i \in DOMAIN y |-> y[i] * y[i]]) - Total(y) * Total(y))
(* how often an individual of the class has the higher score, ties count half *)
AUC(y, s, c) == LET P == {i \in DOMAIN y : y[i] = c}
                    N == DOMAIN y \ P
                IN Part(2 * Cardinality({q \in P \X N : s[q[1]] > s[q[2]]}) + Cardinality({q \in P \X N : s[q[1]] = s[q[2]]}),
                        2 * Cardinality(P) * Cardinality(N))

(* ---------------------------------------------------------------- selecting by importance *)
(* imp: numbers; kept: the positions which take part; the selected positions *)
AtLeast(imp, kept, bar) == {i \in kept : imp[i] >= bar}
(* the q-th of r parts of the importances lies below (between two of them: in proportion) *)
RECURSIVE Ranked(_, _)
Ranked(imp, S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE i \in S : \A j \in S : imp[i] < imp[j] \/ (imp[i] = imp[j] /\ i <= j) IN <<m>> \o Ranked(imp, S \ {m})
Quantile(imp, kept, q, r) == LET R == Ranked(imp, kept)
                                 x == q * (Len(R) - 1)
                                 lo == x \div r
                             IN IF (x % r) = 0 THEN imp[R[lo + 1]] ELSE imp[R[lo + 1]] + ((x % r) * (imp[R[lo + 2]] - imp[R[lo + 1]])) \div r
HowMany(m, a, b) == LET k == IF b = 1 THEN a ELSE (m * a + b - 1) \div b IN IF k > m THEN m ELSE k
=============================================================================
