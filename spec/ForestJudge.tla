----------------------------- MODULE ForestJudge ----------------------------
(* forests grown by the code, and the effects they tell                      *)
EXTENDS Forest, TLC
D == INSTANCE DoubleML
C1(ok, name) == IF ok THEN {} ELSE {name}
Part(R, S) == TLCEval([i \in S |-> R[i]])
MaxOf(S) == CHOOSE a \in S : \A b \in S : b <= a

(* ---- growth; by: "gain" the best split of all, "feature" the best of its feature, "any" only the limits bind *)
GainAt(R, T, n) == LET L == G!Low(R, n.S, T[n.k].f, T[n.k].thr) IN GainOf(R, n.S, L) - Near(R, n.S, L)
Parent(N, T, n) == CHOOSE p \in N : T[p.k].l = n.k \/ T[p.k].r = n.k
Sizes(T, N) == C1(\A n \in N : T[n.k].n = Cardinality(n.S), "size")
(* a leaf is one because there is no split, or because the split above it did nothing for it *)
Unsplit(R, m, T, N, by) ==
    LET leaves == {n \in N : T[n.k].l = 0}
        can(n) == IF by = "any" THEN Free!MustSplit(R, m, n) ELSE G!MustSplit(R, m, n)
        above(n) == n.k # 1 /\ (by = "any" \/ LET p == Parent(N, T, n) IN FAbs(Influence(R, p.S, n.S)) <= Cardinality(n.S))
    IN  C1(\A n \in leaves : ~can(n) \/ above(n), "not_split")
GrowthFailed(R, m, T, by) ==
    LET N == G!Nodes(R, T)
        bad == IF by = "any" THEN Free!TreeFailed(R, [m EXCEPT !.decrease = <<0, 1>>], T, "any") ELSE G!TreeFailed(R, m, T, IF by = "gain" THEN "split" ELSE by)
        inner == {n \in N : T[n.k].l # 0}
        full == m.leaves # 0 /\ Cardinality(N \ inner) >= m.leaves
    IN  IF bad # {} THEN bad
        ELSE IF Sizes(T, N) # {} THEN {"size"}
        ELSE IF by = "feature" \/ (by = "any" /\ m.decrease[1] # 0) THEN {}
        ELSE IF ~full THEN Unsplit(R, m, T, N, by)
        ELSE IF by = "gain" /\ (\A n \in inner : GainAt(R, T, n) > 0) /\ ~G!Greedy(R, m, N, T, {n \in N : n.k = 1}) THEN {"not_best_first"} ELSE {}

(* ---- which rows a tree may have seen: P grew it, L gives the weights *)
Pick(S, k) == {P \in SUBSET S : Cardinality(P) = k}
Samples(R, num, held) == IF held = 0 THEN {<<P, P>> : P \in Pick(DOMAIN R, num)}
                         ELSE UNION {{<<P, L>> : L \in Pick(DOMAIN R \ P, held)} : P \in Pick(DOMAIN R, num - held)}
Grown(R, m, T, by, num, held) ==
    LET S == Samples(R, num, held)
        P == {s[1] : s \in S}
        ok == {p \in P : T[1].n = Cardinality(p) /\ GrowthFailed(Part(R, p), m, T, by) = {}}
    IN  {s[2] : s \in {s \in S : s[1] \in ok}}
Rows(R, T, L, x) == {i \in L : G!Leaf(T, R[i].x) = G!Leaf(T, x)}

(* ---- effects, in thousandths per unit; u: the treatments are in parts of 1/u *)
RECURSIVE SumK(_, _)
SumK(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumK(f, k - 1)
Reduce(a, q) == IF a >= 0 THEN (a + q \div 2) \div q ELSE 0 - ((q \div 2 - a) \div q)
EffectOK(R, leaves, u, eff) ==
    LET E == TLCEval(System(R, leaves))
        J == DOMAIN E.v
        top == MaxOf({FAbs(E.m[j][k]) : j \in J, k \in J} \cup {FAbs(E.v[j]) : j \in J})
        q == 1 + top \div 8000
        A == [j \in J |-> [k \in J |-> Reduce(E.m[j][k], q)]]
        b == [j \in J |-> Reduce(E.v[j], q)]
        ridge == Reduce((E.d * E.d * E.d * u * u) \div 1000, 100 * q)
        off(j) == SumK([k \in J |-> A[j][k] * eff[k]], Len(eff)) + ridge * eff[j] - 1000 * b[j] * u
        slack(j) == SumK([k \in J |-> FAbs(A[j][k])], Len(eff)) + (IF q > 1 THEN SumK([k \in J |-> FAbs(eff[k])], Len(eff)) + 1000 * u ELSE 0) + FAbs(eff[j]) + ridge + 1
    IN  /\ \A j \in J : FAbs(eff[j]) <= 100000
        /\ \A j \in J : FAbs(off(j)) <= slack(j)
        /\ top # 0 \/ \A j \in J : eff[j] = 0
Tame(leaves, u) == Den(leaves) <= (IF u = 1 THEN 90 ELSE 48)

(* an ask: [x, eff, all (with a 0 for the control arm at place ctrl, else <<>>), leaf (per tree, or <<>>)] *)
AskOK(R, TS, L, u, ctrl, a) ==
    LET leaves == TLCEval([b \in DOMAIN TS |-> Rows(R, TS[b], L[b], a.x)])
    IN  ~Tame(leaves, u) \/ EffectOK(R, leaves, u, a.eff)
Drop(s, p) == [i \in 1..Len(s) - 1 |-> IF i < p THEN s[i] ELSE s[i + 1]]
FormFailed(TS, ctrl, a) ==
    C1(a.all = <<>> \/ (Len(a.all) = Len(a.eff) + 1 /\ ctrl \in DOMAIN a.all /\ a.all[ctrl] = 0 /\ Drop(a.all, ctrl) = a.eff), "effect_nji")
    \cup C1(a.leaf = <<>> \/ (Len(a.leaf) = Len(TS) /\ \A b \in DOMAIN TS : a.leaf[b] = G!Leaf(TS[b], a.x)), "leaf")

(* labels are chosen tree by tree so that all asks are right *)
Choices(S) == IF Len(S) = 1 THEN {<<a>> : a \in S[1]} ELSE {<<a, b>> : a \in S[1], b \in S[2]}
Everywhere(e) == e.num = Len(e.rows) /\ e.held = 0

(* features no tree looks at have no importance *)
ImportanceFailed(TS, imp) ==
    LET used == UNION {{TS[b][k].f : k \in {k \in DOMAIN TS[b] : TS[b][k].l # 0}} : b \in DOMAIN TS}
    IN  C1(\A f \in DOMAIN imp : f \in used \/ imp[f] = 0, "importance")

(* residuals, for a forest on top of double machine learning *)
Residual(e) ==
    IF e.k = "grf" THEN e.rows
    ELSE LET X == TLCEval(D!XRes(e.rows, D!AllArms(e.rows), TRUE, e.fold))
             Y == TLCEval(D!YRes(e.rows, 1, FALSE, e.fold))
         IN  [i \in DOMAIN e.rows |-> [x |-> [j \in DOMAIN D!With1(e.rows[i].v, e.more) \ {Len(D!With1(e.rows[i].v, e.more))} |-> 2 * D!With1(e.rows[i].v, e.more)[j + 1]],
                                       c |-> Drop(X[i], e.ctrl), y |-> Y[i][1]]]
ForestFailed(e) ==
    IF e.raised # "" THEN {"raised"}
    ELSE IF ~e.kept THEN {"data_changed"}
    ELSE IF Len(e.trees) # e.count THEN {"count"}
    ELSE IF \E b \in DOMAIN e.trees : ~G!Shaped(e.trees[b]) THEN {"shape"}
    ELSE LET R == TLCEval(Residual(e))
             TS == e.trees
             N == DOMAIN R
             form == UNION {FormFailed(TS, e.ctrl, e.asks[i]) : i \in DOMAIN e.asks} \cup (IF e.imp = <<>> THEN {} ELSE ImportanceFailed(TS, e.imp))
         IN  IF form # {} THEN form
             ELSE IF Everywhere(e)
             THEN LET bad == UNION {GrowthFailed(R, e.lim, TS[b], e.by) : b \in DOMAIN TS}
                  IN  IF bad # {} THEN bad
                      ELSE C1(\A i \in DOMAIN e.asks : AskOK(R, TS, [b \in DOMAIN TS |-> N], e.u, e.ctrl, e.asks[i]), "effect")
             ELSE LET S == TLCEval([b \in DOMAIN TS |-> Grown(R, e.lim, TS[b], e.by, e.num, e.held)])
                  IN  IF \E b \in DOMAIN TS : S[b] = {} THEN {"not_grown_so"}
                      ELSE C1(\E L \in Choices(S) : \A i \in DOMAIN e.asks : AskOK(R, TS, L, e.u, e.ctrl, e.asks[i]), "effect")
=============================================================================
