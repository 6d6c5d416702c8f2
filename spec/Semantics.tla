------------------------------ MODULE Semantics ------------------------------
(* What estimands mean.  A graph is given probability tables over binary      *)
(* variables with entries in the field GF(P); probabilities, interventions    *)
(* and the expressions which the code returns are evaluated exactly there.    *)
(* An identity of rational functions that holds holds in the field; one that  *)
(* does not fails for all but a few of the tables.                            *)
EXTENDS Graph, Bitwise, FiniteSetsExt

P == 32749
Mul(a, b) == (a * b) % P
RECURSIVE PowM(_, _)
PowM(a, k) == IF k = 0 THEN 1
              ELSE LET h == PowM(Mul(a, a), k \div 2) IN IF k % 2 = 1 THEN Mul(a, h) ELSE h
Inv(a) == PowM(a, P - 2)
Div(a, b) == Mul(a, Inv(b))

RECURSIVE SumSeq(_, _)
SumSeq(s, i) == IF i = 0 THEN 0 ELSE (s[i] + SumSeq(s, i - 1)) % P
RECURSIVE ProdSeq(_, _)
ProdSeq(s, i) == IF i = 0 THEN 1 ELSE Mul(s[i], ProdSeq(s, i - 1))
SumOver(S, F(_)) == FoldSet(LAMBDA x, acc : (acc + F(x)) % P, 0, S)
ProdOver(S, F(_)) == FoldSet(LAMBDA x, acc : Mul(acc, F(x)), 1, S)

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

(* variables are numbered by their position in the list order; an assignment  *)
(* of the variables is a number, its bits are the values                      *)
Bit(order, v) == Pow2((CHOOSE i \in DOMAIN order : order[i] = v) - 1)
Mask(order, S) == FoldSet(LAMBDA v, acc : acc + Bit(order, v), 0, S)

(* arbitrary but fixed table entries *)
Rnd(seed, i, cfg) ==
    LET a == (cfg * 7919 + i * 10477 + seed) % P
        b == (Mul(a, a) + 12345 + seed) % P
        c == (Mul(b, 4827) + a) % P
    IN  (Mul(c, c) + b) % P

(* P(v = value | parents, latents) in the world with assignment b of the      *)
(* variables and u of the latent ones                                         *)
Term(seed, i, bit, cfg, b) ==
    LET p1 == Rnd(seed, i, cfg) IN IF (b & bit) # 0 THEN p1 ELSE (1 + P - p1) % P

World(order, g, seed) ==
    LET n    == Len(order)
        arcs == CHOOSE f \in [1..Cardinality(g.B) -> g.B] : \A i, j \in DOMAIN f : i # j => f[i] # f[j]
    IN  [n     |-> n,
         full  |-> Pow2(n),
         lat   |-> Pow2(Len(arcs)),
         pa    |-> [i \in 1..n |-> Mask(order, Pa(g, {order[i]}))],
         la    |-> [i \in 1..n |-> FoldSet(LAMBDA k, acc : acc + Pow2(k - 1), 0, {k \in DOMAIN arcs : order[i] \in arcs[k]})],
         nl    |-> Len(arcs),
         seed  |-> seed]

(* probability of assignment b when the variables in the mask x are set       *)
DoTerm(w, x, b) ==
    SumOver(0..(w.lat - 1), LAMBDA u :
        Mul(ProdOver(1..w.nl, LAMBDA k : Term(w.seed, 20 + k, Pow2(k - 1), 0, u)),
            ProdOver({i \in 1..w.n : (x & Pow2(i - 1)) = 0},
                     LAMBDA i : Term(w.seed, i, Pow2(i - 1), (b & w.pa[i]) + w.full * (u & w.la[i]), b))))

Joint(w) == [b \in 0..(w.full - 1) |-> DoTerm(w, 0, b)]

(* P(y | do(x)) at the values which assignment a gives to y and x             *)
Effect(w, y, x, a) ==
    LET keep == y | x
    IN  SumOver({b \in 0..(w.full - 1) : (b & keep) = (a & keep)}, LAMBDA b : DoTerm(w, x, b))

(* ---- expressions --------------------------------------------------------- *)
(* [v, c: masks of the variables of P(v | c); m: mask of the variables summed  *)
(* over; p: factors; d: divisors of the whole]                                 *)
Marg(J, full, mask, a) == SumOver({b \in 0..(full - 1) : (b & mask) = (a & mask)}, LAMBDA b : J[b])
RECURSIVE Eval(_, _, _, _)
Eval(J, full, t, a) ==
    LET base(b) == IF t.v = 0 THEN 1
                   ELSE IF t.c = 0 THEN Marg(J, full, t.v, b)
                   ELSE Div(Marg(J, full, t.v | t.c, b), Marg(J, full, t.c, b))
        rest == a & (full - 1 - t.m)
        num == SumOver({s \in 0..(full - 1) : (s & t.m) = s},
                       LAMBDA s : LET b == rest + s
                                      f == base(b)
                                  IN  IF f = 0 THEN 0
                                      ELSE Mul(f, ProdSeq([i \in DOMAIN t.p |-> Eval(J, full, t.p[i], b)], Len(t.p))))
        den == ProdSeq([i \in DOMAIN t.d |-> Eval(J, full, t.d[i], a)], Len(t.d))
    IN  IF Len(t.d) = 0 THEN num ELSE Div(num, den)

(* the expression t equals P(Y | do(X)); one table of several is enough, as a  *)
(* division by zero of the field spoils one                                    *)
Sound(g, X, Y, ts, order, seeds, envs) ==
    \E s \in Range(seeds) :
        LET w == World(order, g, s)
            J == Joint(w)
            x == Mask(order, X)
            y == Mask(order, Y)
        IN  \A a \in Range(envs) : LET truth == Effect(w, y, x, a)
                                   IN  \A t \in Range(ts) : Eval(J, w.full, t, a) = truth
=============================================================================
