---------------------------------- MODULE IV ---------------------------------
(* nonparametric two-stage least squares: features of the instruments, the    *)
(* treatments and the covariates; the features of the treatments are          *)
(* predicted from those of the instruments and covariates, the outcome from   *)
(* what was predicted, and effects come from the second model alone.          *)
(* Features only matter up to their order: a row of them is told by its sum   *)
(* and the sum of its squares.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Squares(s) == [i \in DOMAIN s |-> s[i] * s[i]]
RECURSIVE Power(_, _)
Power(b, n) == IF n = 0 THEN 1 ELSE b * Power(b, n - 1)

(* the monomials of degree at most d: exponents per variable; a basis is      *)
(* [d, bias, mixed]: mixed leaves out powers of a single variable             *)
RECURSIVE Total(_)
Total(f) == IF f = <<>> THEN 0 ELSE Head(f) + Total(Tail(f))
RECURSIVE Tuples(_, _)
Tuples(n, top) == IF n = 0 THEN {<<>>} ELSE {<<k>> \o t : k \in 0 .. top, t \in Tuples(n - 1, top)}
Exponents(n, b) == {f \in Tuples(n, b.d) :
    /\ Total(f) <= b.d
    /\ (b.bias \/ Total(f) > 0)
    /\ (b.mixed => \A i \in DOMAIN f : f[i] <= 1)}
RECURSIVE Monomial(_, _)
Monomial(f, x) == IF f = <<>> THEN 1 ELSE Power(Head(x), Head(f)) * Monomial(Tail(f), Tail(x))
RECURSIVE SumOver(_, _)
SumOver(F, x) == IF F = {} THEN 0 ELSE LET f == CHOOSE g \in F : TRUE IN Monomial(f, x) + SumOver(F \ {f}, x)

(* a row of features: [n, s, q] - how many, sum, sum of squares *)
Poly(x, b) == LET F == Exponents(Len(x), b) IN [n |-> Cardinality(F), s |-> SumOver(F, x), q |-> SumOver(F, Squares(x))]
Plain(x) == [n |-> Len(x), s |-> Sum(x), q |-> Sum(Squares(x))]
Kron(a, b) == [n |-> a.n * b.n, s |-> a.s * b.s, q |-> a.q * b.q]
Join(a, b) == [n |-> a.n + b.n, s |-> a.s + b.s, q |-> a.q + b.q]
One == [n |-> 1, s |-> 1, q |-> 1]

(* categories, each in sorted order *)
RECURSIVE Ranks(_)
Ranks(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE a \in S : \A b \in S : a <= b IN <<m>> \o Ranks(S \ {m})
Column(rows, j) == [i \in DOMAIN rows |-> rows[i][j]]
Code(levels, v) == (CHOOSE i \in DOMAIN levels : levels[i] = v) - 1
Levels(rows) == IF rows = <<>> THEN <<>> ELSE [j \in DOMAIN rows[1] |-> Ranks(Rng(Column(rows, j)))]
Codes(levels, row) == [j \in DOMAIN row |-> Code(levels[j], row[j])]
RECURSIVE OneHot(_, _)
OneHot(levels, row) == IF row = <<>> THEN <<>>
                       ELSE [i \in DOMAIN Head(levels) |-> IF Head(levels)[i] = Head(row) THEN 1 ELSE 0] \o OneHot(Tail(levels), Tail(row))

(* e: rows of z (instruments), x (treatments), v, w; a sequence <<>> of v or w stands for none *)
Has(rows) == rows # <<>> /\ rows[1] # <<>>
With(feature, vrow, wrow, e) ==
    LET a == IF vrow = <<>> THEN feature ELSE Kron(feature, Poly(vrow, e.vb))
        b == IF wrow = <<>> THEN a ELSE Join(a, Plain(wrow))
    IN Join(b, One)
ZRow(e, i) == IF e.zdisc THEN OneHot(Levels(e.z), e.z[i]) ELSE e.z[i]
XRow(e, x) == IF e.xdisc THEN Codes(Levels(e.x), x) ELSE x
Stage1(e, i) == With(Poly(ZRow(e, i), e.zb), e.v[i], e.w[i], e)
Target1(e, i) == Poly(XRow(e, e.x[i]), e.xb)

(* the stand-ins: what the models predict from a row of features *)
Hat(m, f) == [j \in 1 .. m |-> ((j * f.s + f.q) % 11) - 3]
Out(m, f) == [j \in 1 .. m |-> j * f.s + f.q]

Stage2(e, i) == With(Plain(Hat(Target1(e, i).n, Stage1(e, i))), e.v[i], e.w[i], e)
(* the outcome had the treatments been x (as codes when they are categories) *)
Outcome(e, x, vrow, wrow) == Out(e.D, With(Poly(x, e.xb), vrow, wrow, e))
Minus(a, b) == [j \in DOMAIN a |-> a[j] - b[j]]
Effect(e, x1, x0, vrow, wrow) == Minus(Outcome(e, x1, vrow, wrow), Outcome(e, x0, vrow, wrow))
(* every combination of the categories, the last treatment running fastest *)
RECURSIVE Combos(_)
Combos(levels) == IF levels = <<>> THEN <<<<>>>>
                  ELSE LET rest == Combos(Tail(levels))
                           k == Len(rest)
                       IN [i \in 1 .. Len(Head(levels)) * k |-> <<(i - 1) \div k>> \o rest[((i - 1) % k) + 1]]
=============================================================================
