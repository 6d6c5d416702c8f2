---------------------------- MODULE CausalJudge -----------------------------
(* causal trees and forests grown by the code, and what they say            *)
EXTENDS CausalTree, TLC
CAbs(x) == IF x < 0 THEN 0 - x ELSE x
C1(ok, name) == IF ok THEN {} ELSE {name}
Part(R, S) == [i \in S |-> R[i]]
(* v: the effect of the rows S of R, in ten-thousandths *)
Effect(R, S, v) == LET d == EffDen(R, S) IN v > -400000 /\ v < 400000 /\ CAbs(v * d - 10000 * EffNum(R, S)) <= 2 * d

(* the rows of H which fall where node n does *)
Falls(R, T, k, H) == {i \in H : \E j \in DOMAIN G!Reach(T, 1, R[i].x) : G!Reach(T, 1, R[i].x)[j] = k}
ValuesFailed(R, T, N, H) ==
    C1(\A n \in N : T[n.k].n = Cardinality(n.S), "size")
    \cup C1(\A n \in N : Effect(R, IF T[n.k].l = 0 THEN Teller(R, n.S, Falls(R, T, n.k, H)) ELSE n.S, T[n.k].val[1]), "effect")
(* the tree T was grown on rows P while rows H were held out *)
GrownFailed(R, m, T, how, P, H) ==
    LET bad == G!TreeFailed(Part(R, P), m, T, how) IN
    IF bad # {} THEN bad ELSE ValuesFailed(R, T, G!Nodes(Part(R, P), T), H)
(* cheap: sizes and effects, before the splits are looked at *)
Plausible(R, T, P, H) == /\ T[1].n = Cardinality(P)
                         /\ (T[1].l = 0 \/ Effect(R, P, T[1].val[1]))
                         /\ ValuesFailed(R, T, G!Nodes(Part(R, P), T), H) = {}
Pick(S, k) == {P \in SUBSET S : Cardinality(P) = k}
(* num: rows drawn for the tree, held: how many of them are held out; rows of other groups (t = 2) are drawn but do not count *)
Used(R, P) == {i \in P : R[i].t # 2}
OneTreeFailed(R, m, T, how, num, held) ==
    IF ~G!Shaped(T) THEN {"shape"}
    ELSE IF held = 0 /\ num = Len(R) THEN GrownFailed(R, m, T, how, Used(R, DOMAIN R), {})
    ELSE LET can == {PH \in UNION {{<<Used(R, P), H>> : H \in Pick(DOMAIN R \ P, held)} : P \in Pick(DOMAIN R, num - held)} : Plausible(R, T, PH[1], PH[2])}
         IN IF can = {} THEN {"no_such_sample"}
            ELSE IF \E PH \in can : GrownFailed(R, m, T, how, PH[1], PH[2]) = {} THEN {}
            ELSE {"not_grown_so"}

RECURSIVE SumOver(_, _)
SumOver(n, f) == IF n = 0 THEN 0 ELSE f[n] + SumOver(n - 1, f)
(* what the trees say about x, on average *)
SaysFailed(TS, a) ==
    LET n == Len(TS)
        v == [j \in 1..n |-> LET T == TS[j] IN T[G!Leaf(T, a.x)].val[1]]
    IN  C1(CAbs(a.eff * n - SumOver(n, v)) <= n, "estimate")
        \cup C1(a.nji = <<>> \/ (Len(a.nji) = 2 /\ a.nji[1] = 0 /\ a.nji[2] = a.eff), "effect_nji")
        \cup C1(a.leaf = 0 \/ a.leaf = G!Leaf(TS[1], a.x), "leaf")
        \cup C1(a.path = <<>> \/ LET p == G!Reach(TS[1], 1, a.x) IN {a.path[j] : j \in DOMAIN a.path} = {p[j] : j \in DOMAIN p}, "path")
MeanFailed(b) == \* b: [eff of individuals, mean]
    LET n == Len(b.eff) IN C1(CAbs(b.mean * n - SumOver(n, b.eff)) <= n, "mean")

DepthOf(R, T) == LET N == G!Nodes(R, T) IN CHOOSE d \in {n.d : n \in N} : \A n \in N : n.d <= d
Gains(R, T, N) == SumS(N, [n \in N |-> GainOf(R, n.S, G!Low(R, n.S, T[n.k].f, T[n.k].thr))])
(* shares of the features in the gains; only where these are not small *)
SharesOK(R, T, imp) ==
    LET N == {n \in G!Nodes(R, T) : T[n.k].l # 0}
        tot == Gains(R, T, N)
    IN  tot < 1000 \/ \A f \in DOMAIN imp :
            LET g == Gains(R, T, {n \in N : T[n.k].f = f}) IN imp[f] > -20000 /\ imp[f] < 20000 /\ CAbs(imp[f] * (tot \div 100) - 100 * g) <= 10000 + 100 * (tot \div 100)

CausalFailed(e) ==
    IF e.raised # "" THEN {"raised"}
    ELSE IF ~e.kept THEN {"data_changed"}
    ELSE LET R == e.rows
             bad == C1(Len(e.trees) = e.count, "count") \cup UNION {OneTreeFailed(R, e.lim, e.trees[j], e.how, e.num, e.held) : j \in DOMAIN e.trees}
         IN  IF bad # {} THEN bad
             ELSE UNION {SaysFailed(e.trees, e.asks[i]) : i \in DOMAIN e.asks}
                  \cup UNION {MeanFailed(e.means[i]) : i \in DOMAIN e.means}
                  \cup C1(e.depth < 0 \/ e.depth = DepthOf(R, e.trees[1]), "depth")
                  \cup C1(e.leaves < 0 \/ e.leaves = Cardinality({j \in DOMAIN e.trees[1] : e.trees[1][j].l = 0}), "leaves")
                  \cup C1(e.imp = <<>> \/ SharesOK(R, e.trees[1], e.imp), "importance")
=============================================================================
