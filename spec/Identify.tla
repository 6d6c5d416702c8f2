------------------------------ MODULE Identify ------------------------------
(* Graphical identification criteria: back door, front door, instruments, and *)
(* identifiability in general (Tian and Pearl's decision by districts, which  *)
(* is independent of the recursion the code uses).                            *)
EXTENDS Graph

(* ---- back door: Z has no descendant of X and blocks every path into X --- *)
BackdoorOK(g, X, Y, Z) == /\ Z \cap De(g, X) = {}
                          /\ Separated(CutOut(g, X), X, Y, Z)
BackdoorCandidates(g, X, Y) == SUBSET ((g.V \ De(g, X)) \ Y)
BackdoorSets(g, X, Y) == {Z \in BackdoorCandidates(g, X, Y) : BackdoorOK(g, X, Y, Z)}
ParentSet(g, X) == Pa(g, X) \ X
(* the parents are no option when they contain what must not be adjusted for *)
ParentsOK(g, X, Y) == ParentSet(g, X) \cap Y = {} /\ BackdoorOK(g, X, Y, ParentSet(g, X))

(* ---- front door ---------------------------------------------------------- *)
Intercepts(g, x, y, Z) == y \notin De(Sub(g, g.V \ Z), {x})
FrontdoorOK(g, x, y, Z) ==
    /\ Intercepts(g, x, y, Z)                                  \* all directed paths go through Z
    /\ Separated(CutOut(g, {x}), {x}, Z, {})                   \* no open back-door path from x to Z
    /\ x \notin De(g, Z) /\ Separated(CutOut(g, Z), Z, {y}, {x})  \* x blocks every back-door path from Z to y
Mediators(g, x, y) == (De(g, {x}) \cap An(g, {y})) \ {x, y}
FrontdoorSets(g, x, y) == {Z \in SUBSET Mediators(g, x, y) : FrontdoorOK(g, x, y, Z)}

(* ---- instruments: causes of the treatment which are cut off from the ------ *)
(* outcome once the treatment is set from outside                             *)
Instruments(g, x, y) == {z \in Pa(g, {x}) \ {y} : Separated(CutIn(g, {x}), {z}, {y}, {})}

(* ---- back-door paths ------------------------------------------------------ *)
(* simple paths as sequences of variables, "~" standing for the latent         *)
(* variable of an arc; last is the last variable, seen the variables passed    *)
RECURSIVE PathsFrom(_, _, _, _)
PathsFrom(g, v, y, seen) ==
    IF v = y THEN {<<v>>}
    ELSE   UNION {{<<v>> \o p : p \in PathsFrom(g, w, y, seen \cup {w})} : w \in (Pa(g, {v}) \cup Ch(g, {v})) \ seen}
      \cup UNION {{<<v, "~">> \o p : p \in PathsFrom(g, w, y, seen \cup {w})} : w \in Sp(g, {v}) \ seen}
Paths(g, x, y) == PathsFrom(g, x, y, {x})
IntoFirst(g, p) == p[2] = "~" \/ <<p[2], p[1]>> \in g.E
BackdoorPaths(g, x, y) == {p \in Paths(g, x, y) : Len(p) > 2 /\ IntoFirst(g, p)}
HeadAt(g, p, i, j) == p[j] = "~" \/ <<p[j], p[i]>> \in g.E     \* the step between p[i] and its neighbour p[j] points to p[i]
HasCollider(g, p) == \E i \in 2..(Len(p) - 1) : p[i] # "~" /\ HeadAt(g, p, i, i - 1) /\ HeadAt(g, p, i, i + 1)

(* ---- identifiability of P(Y | do(X)) -------------------------------------- *)
RECURSIVE IdentifyQ(_, _, _)
IdentifyQ(g, S, T) ==          \* is Q[S] computable from Q[T], S inside the district T
    LET A == An(Sub(g, T), S)
    IN  IF A = S THEN TRUE
        ELSE IF A = T THEN FALSE
        ELSE LET D == CHOOSE d \in Districts(Sub(g, A)) : S \subseteq d IN IdentifyQ(g, S, D)
Identifiable(g, X, Y) ==
    LET D == An(Sub(g, g.V \ X), Y)
    IN  \A S \in Districts(Sub(g, D)) :
          IdentifyQ(g, S, CHOOSE T \in Districts(g) : S \subseteq T)
=============================================================================
