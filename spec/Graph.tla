-------------------------------- MODULE Graph --------------------------------
(* Causal graphs with latent confounders: acyclic directed mixed graphs.     *)
(* A graph is a record [V, E, B]: observed variables, directed edges <<a,b>> *)
(* (a causes b) and latent confounding arcs {a,b}.                           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in DOMAIN s}

(* a graph as it is written in a trace: lists of nodes, edges and arcs *)
GraphOf(j) == [V |-> Range(j.V),
               E |-> {<<p[1], p[2]>> : p \in Range(j.E)},
               B |-> {{p[1], p[2]} : p \in Range(j.B)}]

WellFormed(g) == /\ \A e \in g.E : e[1] \in g.V /\ e[2] \in g.V /\ e[1] # e[2]
                 /\ \A b \in g.B : b \subseteq g.V /\ Cardinality(b) = 2

Pa(g, S) == {e[1] : e \in {d \in g.E : d[2] \in S}}
Ch(g, S) == {e[2] : e \in {d \in g.E : d[1] \in S}}
Sp(g, S) == UNION {b \in g.B : b \cap S # {}} \ S          \* confounded with S

RECURSIVE An(_, _)
An(g, S) == LET T == S \cup Pa(g, S) IN IF T = S THEN S ELSE An(g, T)
RECURSIVE De(_, _)
De(g, S) == LET T == S \cup Ch(g, S) IN IF T = S THEN S ELSE De(g, T)

Acyclic(g) == \A v \in g.V : v \notin De(g, Ch(g, {v}))

(* the districts (c-components): classes of variables linked by latent arcs *)
RECURSIVE District1(_, _)
District1(g, S) == LET T == S \cup UNION {b \in g.B : b \cap S # {}}
                   IN  IF T = S THEN S ELSE District1(g, T)
Districts(g) == {District1(g, {v}) : v \in g.V}

Sub(g, S) == [V |-> g.V \cap S,
              E |-> {e \in g.E : e[1] \in S /\ e[2] \in S},
              B |-> {b \in g.B : b \subseteq S}]
(* an intervention on S: what points to S is cut, confounders included *)
CutIn(g, S)  == [g EXCEPT !.E = {e \in @ : e[2] \notin S}, !.B = {b \in @ : b \cap S = {}}]
CutOut(g, S) == [g EXCEPT !.E = {e \in @ : e[1] \notin S}]

IsTopological(g, order) ==
    /\ Len(order) = Cardinality(g.V) /\ Range(order) = g.V
    /\ \A e \in g.E : \E i, j \in DOMAIN order : i < j /\ order[i] = e[1] /\ order[j] = e[2]

(* ---- m-separation, walked through the mixed graph itself (Bayes ball) --- *)
(* a state <<v, h>> is an arrival at v, with an arrowhead at v iff h         *)
Leave(g, v) ==   \* steps <<mark at v is a head, next node, mark at next is a head>>
       {<<FALSE, e[2], TRUE>>  : e \in {d \in g.E : d[1] = v}}
  \cup {<<TRUE,  e[1], FALSE>> : e \in {d \in g.E : d[2] = v}}
  \cup {<<TRUE,  w, TRUE>>     : w \in Sp(g, {v})}

BallNext(g, Z, AnZ, st) ==
    {<<s[2], s[3]>> : s \in {t \in Leave(g, st[1]) :
        IF st[2] /\ t[1] THEN st[1] \in AnZ ELSE st[1] \notin Z}}

RECURSIVE BallReach(_, _, _, _, _)
BallReach(g, Z, AnZ, seen, frontier) ==
    IF frontier = {} THEN seen
    ELSE LET new == (UNION {BallNext(g, Z, AnZ, st) : st \in frontier}) \ seen
         IN  BallReach(g, Z, AnZ, seen \cup new, new)

Separated(g, X, Y, Z) ==
    LET start == UNION {{<<s[2], s[3]>> : s \in Leave(g, x)} : x \in X}
        reach == BallReach(g, Z, An(g, Z), start, start)
    IN  {st[1] : st \in reach} \cap Y = {}

(* ---- the same by augmentation (moralization) of the ancestral graph ----- *)
(* two variables are linked if joined by an edge or by a path of colliders   *)
AugLinked(g, a, b) ==
    \/ <<a, b>> \in g.E \/ <<b, a>> \in g.E
    \/ \E D \in Districts(g) :
             /\ a \in (D \cup Pa(g, D)) /\ b \in (D \cup Pa(g, D))

RECURSIVE Grow(_, _, _)
Grow(L, Z, S) == LET T == S \cup {p[2] : p \in {q \in L : q[1] \in S /\ q[2] \notin Z}}
                 IN  IF T = S THEN S ELSE Grow(L, Z, T)
SeparatedAug(g, X, Y, Z) ==
    LET h == Sub(g, An(g, X \cup Y \cup Z))
        L == {p \in h.V \X h.V : p[1] # p[2] /\ AugLinked(h, p[1], p[2])}
    IN  Grow(L, Z, X) \cap Y = {}
=============================================================================
