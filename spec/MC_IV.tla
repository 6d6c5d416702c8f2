-------------------------------- MODULE MC_IV --------------------------------
(* every small study with instruments *)
EXTENDS IV
CONSTANTS Vals, Wide
VARIABLE e
Bases == {[d |-> d, bias |-> b, mixed |-> m] : d \in 1 .. 2, b \in BOOLEAN, m \in BOOLEAN}
Vec(n) == [1 .. n -> Vals]
Some == IF Wide THEN {<<>>} \cup Vec(1) ELSE {<<>>, <<2>>}
Covs == IF Wide THEN Some \cup {<<1, 3>>} ELSE Some
Good(b, n) == Exponents(n, b) # {}
Plan == [d |-> 1, bias |-> TRUE, mixed |-> FALSE]
Init == \E nz \in 1 .. 2, nx \in 1 .. 2 : \E z1, z2 \in Vec(nz), x1, x2 \in Vec(nx) :
          /\ nz + nx <= 3
          /\ e = [z |-> <<z1, z2>>, x |-> <<x1, x2>>, v |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, zb |-> Plan, xb |-> Plan, vb |-> Plan,
                  zdisc |-> FALSE, xdisc |-> FALSE, D |-> 2]
Next == /\ e.zb = Plan /\ e.xb = Plan /\ e.v[1] = <<>> /\ e.w[1] = <<>> /\ ~e.zdisc
        /\ \E v \in Covs, w \in Some, zb, xb \in Bases, vb \in {Plan, [d |-> 2, bias |-> FALSE, mixed |-> FALSE]}, zd \in BOOLEAN :
             /\ Good(zb, Len(e.z[1])) /\ Good(xb, Len(e.x[1]))
             /\ (Wide \/ (zb.d + xb.d <= 3 /\ (zb.mixed => ~xb.mixed)))
             /\ (v = <<>> => vb = Plan)
             /\ e' = [e EXCEPT !.v = <<v, v>>, !.w = <<w, w>>, !.zb = zb, !.xb = xb, !.vb = vb, !.zdisc = zd, !.xdisc = zd]
Spec == Init /\ [][Next]_e

Flip(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
RECURSIVE Product(_)
Product(s) == IF s = <<>> THEN 1 ELSE Head(s) * Product(Tail(s))
V == e.v[1]
W == e.w[1]
(* the order of the columns does not matter, and leaving out the constant leaves out one *)
BasisOK == \A i \in 1 .. 2 : LET z == ZRow(e, i) IN
    /\ Poly(z, e.zb) = Poly(Flip(z), e.zb)
    /\ Poly(z, [e.zb EXCEPT !.bias = TRUE]) = Join(Poly(z, [e.zb EXCEPT !.bias = FALSE]), One)
    /\ Poly(z, [d |-> Len(z), bias |-> TRUE, mixed |-> TRUE]).s = Product([j \in DOMAIN z |-> 1 + z[j]])
    /\ e.zb.d = 1 => Poly(z, [e.zb EXCEPT !.bias = FALSE]) = Plain(z)
(* categories: one per column, told apart exactly *)
CodeOK == LET L == Levels(e.z) IN
    /\ \A i \in 1 .. 2 : /\ Plain(OneHot(L, e.z[i])).s = Len(e.z[i]) /\ Plain(OneHot(L, e.z[i])).q = Len(e.z[i])
                         /\ \A j \in DOMAIN L : L[j][Codes(L, e.z[i])[j] + 1] = e.z[i][j]
    /\ (OneHot(L, e.z[1]) = OneHot(L, e.z[2])) = (e.z[1] = e.z[2])
    /\ LET C == Combos(L) IN /\ Cardinality(Rng(C)) = Len(C) /\ \A i \in 1 .. 2 : Codes(L, e.z[i]) \in Rng(C)
                             /\ C[1] = [j \in DOMAIN L |-> 0]
(* effects are differences: none of a treatment on itself, the reverse has the other sign, and they chain *)
EffectOK == LET a == XRow(e, e.x[1])
                b == XRow(e, e.x[2])
                o == [j \in DOMAIN a |-> 1]
                f(p, q) == Effect(e, p, q, V, W) IN
    /\ f(a, a) = <<0, 0>>
    /\ f(a, b) = Minus(<<0, 0>>, f(b, a))
    /\ [j \in 1 .. 2 |-> f(a, o)[j] + f(o, b)[j]] = f(a, b)
(* other variables enter the effect through the covariates only *)
CovariateOK == LET a == XRow(e, e.x[1])
                   b == XRow(e, e.x[2]) IN
    /\ W # <<>> => Effect(e, a, b, V, W) = Effect(e, a, b, V, [j \in DOMAIN W |-> 0])
    /\ Effect([e EXCEPT !.z = Flip(@)], a, b, V, W) = Effect(e, a, b, V, W)
(* the first stage does not see the treatments, the second sees them through the first only *)
StageOK == LET f == [e EXCEPT !.x = Flip(@)] IN
    \A i \in 1 .. 2 : /\ Stage1(f, i) = Stage1(e, i)
                      /\ Stage2(f, i) = Stage2(e, i)
                      /\ (e.z[1] = e.z[2] => Stage2(e, 1) = Stage2(e, 2))
=============================================================================
