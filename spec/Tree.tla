-------------------------------- MODULE Tree --------------------------------
(* Greedy growth of a tree which splits rows by thresholds of their features.*)
(* A row has features x (integers); Gain(R, S, L) is what splitting off the  *)
(* rows L from S gains, Off(R, S, L) how far that may be off, Weight(R, S)   *)
(* how much S weighs.  m holds the limits: leaf (fewest rows of a leaf),     *)
(* split (fewest rows of a node to be split), depth (0: any), leaves (0:     *)
(* any), weight = <<a, b>> (a leaf weighs at least a/b of all), decrease =   *)
(* <<a, b>> (a split gains at least a/b per unit of Base(R)).                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Gain(_, _, _), Off(_, _, _), Weight(_, _), Base(_)

All(R) == DOMAIN R
Feat(R) == DOMAIN R[CHOOSE i \in DOMAIN R : TRUE].x
Low(R, S, f, c) == {i \in S : R[i].x[f] <= c}

LeafOK(R, m, S) == /\ Cardinality(S) >= m.leaf
                   /\ Weight(R, S) * m.weight[2] >= m.weight[1] * Weight(R, All(R))
MaxOr(a, b) == IF a > b THEN a ELSE b
Splittable(R, m, S, d) == /\ m.depth = 0 \/ d < m.depth
                          /\ Cardinality(S) >= MaxOr(2, MaxOr(m.split, 2 * m.leaf))
                          /\ Weight(R, S) * m.weight[2] >= 2 * m.weight[1] * Weight(R, All(R))
(* the left sides of the splits which may be made *)
Sides(R, m, S, fs) == {L \in {Low(R, S, f, R[i].x[f]) : f \in fs, i \in S} : L # S /\ LeafOK(R, m, L) /\ LeafOK(R, m, S \ L)}
(* certainly worth it, certainly not *)
Enough(R, m, g, o) == g - o > 0 /\ (g - o) * m.decrease[2] > m.decrease[1] * Base(R)
TooLittle(R, m, g, o) == g + o < 0 \/ (g + o) * m.decrease[2] < m.decrease[1] * Base(R)
BestSides(R, m, S, fs) == LET X == Sides(R, m, S, fs) IN {L \in X : \A K \in X : Gain(R, S, K) <= Gain(R, S, L)}

(* ---- growth as transitions: blocks are [S |-> rows, d |-> depth] *)
Start(R) == {[S |-> All(R), d |-> 0]}
Grow(R, m, B) ==
    IF m.leaves # 0 /\ Cardinality(B) >= m.leaves THEN {}
    ELSE LET open == {b \in B : Splittable(R, m, b.S, b.d) /\ \E L \in BestSides(R, m, b.S, Feat(R)) : Enough(R, m, Gain(R, b.S, L), Off(R, b.S, L))}
             gainOf(b) == LET L == CHOOSE L \in BestSides(R, m, b.S, Feat(R)) : TRUE IN Gain(R, b.S, L)
             next == IF m.leaves = 0 THEN open ELSE {b \in open : \A c \in open : gainOf(c) <= gainOf(b)}
         IN UNION {{(B \ {b}) \cup {[S |-> L, d |-> b.d + 1], [S |-> b.S \ L, d |-> b.d + 1]} : L \in BestSides(R, m, b.S, Feat(R))} : b \in next}

(* ---- a recorded tree: nodes [l, r, f, thr], l = 0 for a leaf, root 1 *)
RECURSIVE SetsFrom(_, _, _, _, _)
SetsFrom(R, T, k, S, d) ==
    IF T[k].l = 0 THEN {[k |-> k, S |-> S, d |-> d]}
    ELSE LET L == Low(R, S, T[k].f, T[k].thr)
         IN {[k |-> k, S |-> S, d |-> d]} \cup SetsFrom(R, T, T[k].l, L, d + 1) \cup SetsFrom(R, T, T[k].r, S \ L, d + 1)
Nodes(R, T) == SetsFrom(R, T, 1, All(R), 0)

RECURSIVE Reach(_, _, _)
Reach(T, k, x) == IF T[k].l = 0 THEN <<k>> ELSE <<k>> \o Reach(T, IF x[T[k].f] <= T[k].thr THEN T[k].l ELSE T[k].r, x)
Leaf(T, x) == LET p == Reach(T, 1, x) IN p[Len(p)]

Shaped(T) == /\ \A k \in DOMAIN T : T[k].l = 0 \/ (T[k].l \in DOMAIN T /\ T[k].r \in DOMAIN T /\ T[k].l # T[k].r)
             /\ \A j \in DOMAIN T \ {1} : Cardinality({k \in DOMAIN T : T[k].l = j \/ T[k].r = j}) = 1
             /\ \A k \in DOMAIN T : T[k].l # 1 /\ T[k].r # 1

(* how: "best" every split is a best one; "feature" best of its feature; "any" only the limits bind *)
SplitFailed(R, m, T, n, how) ==
    LET L == Low(R, n.S, T[n.k].f, T[n.k].thr)
        fs == IF how = "feature" THEN {T[n.k].f} ELSE Feat(R)
    IN  IF L = {} \/ L = n.S THEN {"empty_side"}
        ELSE IF ~Splittable(R, m, n.S, n.d) \/ ~LeafOK(R, m, L) \/ ~LeafOK(R, m, n.S \ L) THEN {"limits"}
        ELSE (IF how # "any" /\ \E K \in Sides(R, m, n.S, fs) : Gain(R, n.S, K) - Off(R, n.S, K) > Gain(R, n.S, L) + Off(R, n.S, L) THEN {"not_best"} ELSE {})
             \cup (IF TooLittle(R, m, Gain(R, n.S, L), Off(R, n.S, L)) THEN {"pointless"} ELSE {})

MustSplit(R, m, n) == /\ Splittable(R, m, n.S, n.d)
                      /\ \E L \in Sides(R, m, n.S, Feat(R)) : Enough(R, m, Gain(R, n.S, L), Off(R, n.S, L))

(* best first: at any time the open node which gains most is split; some order of the splits made must be of this kind *)
Promise(R, m, n) == IF ~Splittable(R, m, n.S, n.d) THEN {}
                    ELSE {[g |-> Gain(R, n.S, L), o |-> Off(R, n.S, L)] : L \in BestSides(R, m, n.S, Feat(R))}
RECURSIVE Greedy(_, _, _, _, _)
Greedy(R, m, N, T, open) ==
    LET inner == {n \in open : T[n.k].l # 0}
        best(n) == CHOOSE p \in Promise(R, m, n) : TRUE
    IN  IF inner = {} THEN TRUE
        ELSE \E n \in inner :
               /\ \A o \in open : Promise(R, m, o) = {} \/ best(o).g - best(o).o <= best(n).g + best(n).o \/ ~Enough(R, m, best(o).g, best(o).o)
               /\ Greedy(R, m, N, T, (open \ {n}) \cup {c \in N : c.k \in {T[n.k].l, T[n.k].r}})

TreeFailed(R, m, T, how) ==
    IF ~Shaped(T) THEN {"shape"}
    ELSE LET N == Nodes(R, T)
             leaves == {n \in N : T[n.k].l = 0}
             bad == UNION {SplitFailed(R, m, T, n, how) : n \in N \ leaves}
         IN  IF bad # {} THEN bad
             ELSE IF m.leaves # 0 /\ Cardinality(leaves) > m.leaves THEN {"too_many_leaves"}
             ELSE IF how # "best" THEN {}
             ELSE IF (m.leaves = 0 \/ Cardinality(leaves) < m.leaves) /\ \E n \in leaves : MustSplit(R, m, n) THEN {"not_split"}
             ELSE IF m.leaves # 0 /\ ~Greedy(R, m, N, T, {n \in N : n.k = 1}) THEN {"not_best_first"}
             ELSE {}
=============================================================================
