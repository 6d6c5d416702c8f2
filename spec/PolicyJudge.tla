----------------------------- MODULE PolicyJudge ----------------------------
(* a policy tree grown by the code, and what it says about individuals       *)
EXTENDS Policy, TLC
PAbs(x) == IF x < 0 THEN 0 - x ELSE x
B1(ok, name) == IF ok THEN {} ELSE {name}
Scale == 10000

(* v is a mean of sums over weight w, in ten-thousandths *)
Mean(v, s, w) == PAbs(v * w - Scale * s) <= w
Values(R, n, val) == \A k \in DOMAIN R[1].e : Mean(val[k], EffectSum(R, n.S, k), WeightOf(R, n.S))
BestArms(R, S) == {k \in DOMAIN R[1].e : EffectSum(R, S, k) = WorthOf(R, S)}

GainAt(R, T, n) == GainOf(R, n.S, G!Low(R, n.S, T[n.k].f, T[n.k].thr))
ImportanceOK(R, T, inner, imp) ==
    LET tot == SumS(inner, [n \in inner |-> GainAt(R, T, n)])
    IN tot = 0 \/ \A f \in DOMAIN imp : PAbs(imp[f] * tot - Scale * SumS({n \in inner : T[n.k].f = f}, [n \in inner |-> GainAt(R, T, n)])) <= 30 * tot

AskFailed(R, T, N, a) ==
    LET p == G!Reach(T, 1, a.x)
        leaf == CHOOSE n \in N : n.k = p[Len(p)]
    IN  B1(a.path = <<>> \/ {a.path[j] : j \in DOMAIN a.path} = {p[j] : j \in DOMAIN p}, "path")
        \cup B1(a.leaf = 0 \/ a.leaf = leaf.k, "leaf")
        \cup B1(Len(a.eff) = Len(R[1].e) /\ Values(R, leaf, a.eff), "effect")
        \cup B1(a.ind \in BestArms(R, leaf.S), "treatment")
        \cup B1(a.conds = <<>> \/ /\ Len(a.conds) = Len(p) - 1
                                  /\ \A j \in 1..Len(p)-1 : LET c == a.conds[j]
                                                                t == T[p[j]] IN
                                       c.k = p[j] /\ c.f = t.f /\ c.thr = t.thr /\ c.x = a.x[t.f] /\ (c.le <=> a.x[t.f] <= t.thr), "conditions")
        \cup B1(a.rec = 0 \/ (a.rec \in BestArms(R, leaf.S) /\ Mean(a.val, WorthOf(R, leaf.S), WeightOf(R, leaf.S))), "recommended")

PolicyFailed(e) ==
    IF e.raised # "" THEN {"raised"}
    ELSE IF ~e.kept THEN {"data_changed"}
    ELSE LET R == e.rows
             T == e.tree
             bad == G!TreeFailed(R, e.lim, T, e.how)
         IN  IF bad # {} THEN bad
             ELSE LET N == G!Nodes(R, T)
                      leaves == {n \in N : T[n.k].l = 0}
                  IN  B1(\A n \in N : (e.deep \/ n \in leaves) => Len(T[n.k].val) = Len(R[1].e) /\ Values(R, n, T[n.k].val), "value")
                      \cup B1(e.deep => \A n \in N : T[n.k].n = Cardinality(n.S) /\ T[n.k].w = WeightOf(R, n.S), "size")
                      \cup B1(e.deep => e.depth = MaxN({n.d : n \in N}) /\ e.leaves = Cardinality(leaves), "depth_or_leaves")
                      \cup B1(e.deep => ImportanceOK(R, T, N \ leaves, e.imp), "importance")
                      \cup UNION {AskFailed(R, T, N, e.asks[i]) : i \in DOMAIN e.asks}
=============================================================================
