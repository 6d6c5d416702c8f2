------------------------------ MODULE Discovery ------------------------------
(* Causal discovery: what becomes of a learned matrix of weights.            *)
(* A matrix is a sequence of rows; M[i][j] is the weight of the edge i -> j. *)
EXTENDS Identify

Idx(M) == DOMAIN M
Abs(x) == IF x < 0 THEN -x ELSE x
MEdges(M) == {p \in Idx(M) \X Idx(M) : M[p[1]][p[2]] # 0}
GraphOfM(M) == [V |-> Idx(M), E |-> MEdges(M), B |-> {}]
Loops(M) == {p \in MEdges(M) : p[1] = p[2]}
AcyclicM(M) == Acyclic(GraphOfM(M))

(* e lies on a cycle on which it is a weakest edge: there is a way back over edges at least as strong *)
WeakestOnCycle(M, e) ==
    LET strong == {d \in MEdges(M) : Abs(M[d[1]][d[2]]) >= Abs(M[e[1]][e[2]])}
    IN  e[1] \in De([V |-> Idx(M), E |-> strong, B |-> {}], {e[2]})

(* ---- trimming the cycles of a matrix as a transition system -------------- *)
(* loops go first; while there is a cycle, a weakest edge of one goes          *)
Zero(M, S) == [i \in Idx(M) |-> [j \in Idx(M) |-> IF <<i, j>> \in S THEN 0 ELSE M[i][j]]]
TrimSteps(M) == IF AcyclicM(M) THEN {}
                ELSE IF Loops(M) # {} THEN {Zero(M, Loops(M))}
                ELSE {Zero(M, {e}) : e \in {d \in MEdges(M) : WeakestOnCycle(M, d)}}

(* what holds of the result, however the cycles were chosen *)
TrimOK(M, R) ==
    LET gone == MEdges(M) \ MEdges(R) IN
    /\ AcyclicM(R)
    /\ MEdges(R) \subseteq MEdges(M)
    /\ \A e \in MEdges(R) : R[e[1]][e[2]] = M[e[1]][e[2]]
    /\ \A e \in gone \ Loops(M) : WeakestOnCycle(Zero(M, Loops(M)), e)
    /\ (AcyclicM(M) => R = M)

(* ---- conversions ----------------------------------------------------------- *)
Causes(M, i)  == An(GraphOfM(M), {i}) \ {i}
Parents(M, i) == Pa(GraphOfM(M), {i}) \ {i}
(* one line per pair: the stronger direction *)
PairOf(M, i, j) == IF Abs(M[i][j]) >= Abs(M[j][i]) THEN <<i, j, M[i][j]>> ELSE <<j, i, M[j][i]>>
PairTable(M) == {PairOf(M, i, j) : <<i, j>> \in {p \in Idx(M) \X Idx(M) : p[1] < p[2]}}

(* ---- roles of the variables given a learned graph --------------------------- *)
(* by ancestry: causes of the outcome are covariates, causes of the treatments which are none are instruments *)
ByAncestry(g, T, y) ==
    [cov |-> (An(g, {y}) \ {y}) \ T,
     ins |-> ((An(g, T) \ T) \ An(g, {y})) \ (T \cup {y})]
(* by the model: instruments common to all treatments, and a back-door set *)
CommonInstruments(g, T, y) ==
    {z \in g.V \ (T \cup {y}) : \A t \in T : z \in Instruments(g, t, y)}
==============================================================================
