--------------------------- MODULE DiscoveryJudge ---------------------------
EXTENDS Discovery

B1(ok, name) == IF ok THEN {} ELSE {name}
Square(R, n) == Len(R) = n /\ \A i \in 1..n : Len(R[i]) = n

(* an answer names the variables; e.names is their order in the matrix *)
At(names, v) == CHOOSE i \in DOMAIN names : names[i] = v
Name(e, S) == {e.names[i] : i \in S}

TrimFailed(e) ==
    IF ~Square(e.out, Len(e.M)) THEN {"shape"}
    ELSE B1(AcyclicM(e.out), "cycle_left")
    \cup B1(TrimOK(e.M, e.out) \/ ~AcyclicM(e.out), "wrong_edges_trimmed")

DictFailed(e) ==
    B1([i \in DOMAIN e.out |-> e.out[i].v] = e.names, "keys")
    \cup B1(\A i \in DOMAIN e.out :
             LET want == IF e.depth = 1 THEN Parents(e.M, i) ELSE Causes(e.M, i) IN
             Range(e.out[i].c) = Name(e, want) /\ Len(e.out[i].c) = Cardinality(want), "causes")

TableFailed(e) ==
    LET want == {<<e.names[t[1]], e.names[t[2]], t[3]>> : t \in PairTable(e.M)} IN
    B1(Range(e.out) = want /\ Len(e.out) = Cardinality(want), "pairs")

(* a learner run on data: R is what it returned, in millionths, with the labels of its rows and columns *)
LearnFailed(e) ==
         B1(e.cols = e.names /\ e.rows = e.names, "labels")
    \cup (IF ~Square(e.out, Len(e.names)) THEN {"shape"}
          ELSE B1(AcyclicM(e.out), "cycle_left")
          \cup B1(\A p \in MEdges(e.out) : Abs(e.out[p[1]][p[2]]) >= e.threshold, "below_threshold")
          \cup B1(Len(e.dict) = Len(e.names)
                  /\ \A i \in DOMAIN e.dict : e.dict[i].v = e.names[i] /\ Range(e.dict[i].c) = Name(e, Causes(e.out, i)), "dictionary"))
    \cup B1(e.again = e.out, "not_repeatable")
    \cup B1(e.array = e.out, "array_differs_from_frame")

(* ---- roles ------------------------------------------------------------------ *)
NameGraph(e) == LET g == GraphOfM(e.M) IN
    [V |-> Range(e.names), E |-> {<<e.names[p[1]], e.names[p[2]]>> : p \in g.E}, B |-> {}]
Others(e, T, I) == (Range(e.names) \ {e.y}) \ (T \cup I)

RolesFailed(e) ==
    LET g == NameGraph(e)
        T == Range(e.T)
        cov == Range(e.cov)
        ins == Range(e.ins)
        got == Len(e.cov) = Cardinality(cov) /\ Len(e.ins) = Cardinality(ins)
    IN  B1(got /\ e.adj = <<>>, "roles_overlap") \cup
        (IF e.nan THEN B1(cov = Others(e, T, {}) /\ ins = {}, "default_roles")
         ELSE IF e.method \in {"dfs", "straight"}
         THEN LET r == ByAncestry(g, T, e.y) IN
              B1(ins = r.ins, "instruments") \cup
              B1(cov = (IF r.cov = {} THEN Others(e, T, ins) ELSE r.cov), "covariates")
         ELSE LET I == CommonInstruments(g, T, e.y)
                  sets == IF e.method = "simple" THEN (IF ParentsOK(g, T, {e.y}) THEN {ParentSet(g, T)} ELSE {{}})
                          ELSE BackdoorSets(g, T, {e.y})
              IN  B1(ins = I, "instruments") \cup
                  B1(\E Z \in sets : cov = (IF Z \ I = {} THEN Others(e, T, I) ELSE Z \ I), "covariates"))

(* treatments: the strongest causes of the outcome of one kind, at most limit of them *)
RECURSIVE Sorted(_, _)
Sorted(S, w) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE i \in S : \A j \in S : w[i] >= w[j] IN <<m>> \o Sorted(S \ {m}, w)
TreatFailed(e) ==
    LET yi == At(e.names, e.y)
        cand == {i \in DOMAIN e.names : i # yi /\ e.M[i][yi] # 0}
        w == [i \in DOMAIN e.names |-> Abs(e.M[i][yi])]
        strongest == CHOOSE i \in cand : \A j \in cand : w[i] >= w[j]
        kind == IF e.discrete = "" THEN e.kinds[strongest] ELSE e.discrete
        all == Sorted({i \in cand : e.kinds[i] = kind}, w)
        n == IF Len(all) < e.limit THEN Len(all) ELSE e.limit
    IN  IF cand = {}
        THEN \* nothing discovered: some ranking of the columns, but of one kind, no more than asked for and not the outcome
             B1(Len(e.out) \in 1..e.limit /\ Len(e.out) = Cardinality(Range(e.out))
                /\ Range(e.out) \subseteq Range(e.names) \ {e.y}
                /\ Cardinality({e.kinds[At(e.names, v)] : v \in Range(e.out)}) = 1, "default_treatments")
        ELSE B1(e.out = [k \in 1..n |-> e.names[all[k]]], "treatments")

DiscoveryFailed(e) ==
    IF e.raised # "" THEN IF e.k = "roles" /\ e.raised = "IdentificationError"
                          THEN B1(BackdoorSets(NameGraph(e), Range(e.T), {e.y}) = {} /\ e.method \in {"minimal", "all"}, "raised")
                          ELSE {"raised"}
    ELSE (CASE e.k = "trim" -> TrimFailed(e)
            [] e.k = "dict" -> DictFailed(e)
            [] e.k = "table" -> TableFailed(e)
            [] e.k = "learn" -> LearnFailed(e)
            [] e.k = "roles" -> RolesFailed(e)
            [] e.k = "treat" -> TreatFailed(e))
         \cup B1(e.kept, "input_changed")
=============================================================================
