---------------------------- MODULE InterpretJudge ---------------------------
(* a tree which explains the effects told by an estimator, and what it says   *)
EXTENDS Interpret, TLC
PAbs(x) == IF x < 0 THEN 0 - x ELSE x
B1(ok, name) == IF ok THEN {} ELSE {name}
Scale == 10000
(* v is a mean of sums over n rows, in ten-thousandths *)
Mean(v, s, n) == PAbs(v * n - Scale * s) <= n
Values(R, S, val) == Len(val) = Cardinality(Outputs(R)) /\ \A k \in Outputs(R) : Mean(val[k], EffectSum(R, S, k), Cardinality(S))
(* the squared standard deviation, in ten-thousandths *)
Spread(R, S, var) == Len(var) = Cardinality(Outputs(R)) /\ \A k \in Outputs(R) :
    LET n == Cardinality(S) IN
    PAbs(var[k] * n - Scale * SquareSum(R, S, k) + (Scale * EffectSum(R, S, k) * EffectSum(R, S, k)) \div n) <= 2 * n + 1
AskFailed(R, T, N, a) ==
    LET p == G!Reach(T, 1, a.x)
        leaf == CHOOSE n \in N : n.k = p[Len(p)]
    IN  B1(a.eff = <<>> \/ Values(R, leaf.S, a.eff), "effect")
        \cup B1(~a.told \/ /\ Len(a.conds) = Len(p) - 1
                           /\ \A j \in 1..Len(p)-1 : LET c == a.conds[j]
                                                         t == T[p[j]] IN
                                c.k = p[j] /\ c.f = t.f /\ c.thr = t.thr /\ c.x = a.x[t.f] /\ (c.le <=> a.x[t.f] <= t.thr), "conditions")
InterpretFailed(e) ==
    IF e.raised # "" THEN {"raised"}
    ELSE IF ~e.kept THEN {"data_changed"}
    ELSE LET R == e.rows
             T == e.tree
             bad == G!TreeFailed(R, e.lim, T, e.how)
         IN  IF bad # {} THEN bad
             ELSE LET N == G!Nodes(R, T)
                      leaves == {n \in N : T[n.k].l = 0}
                  IN  B1(\A n \in leaves : Values(R, n.S, T[n.k].val), "value")
                      \cup B1(\A n \in N \ leaves : Values(R, n.S, T[n.k].val) /\ Spread(R, n.S, T[n.k].var), "node")
                      \cup UNION {AskFailed(R, T, N, e.asks[i]) : i \in DOMAIN e.asks}
=============================================================================
