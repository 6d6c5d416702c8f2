---------------------------- MODULE IdentifyJudge ----------------------------
(* Judging what the identification functions of the code answer. *)
EXTENDS Identify, Semantics

S_(x) == Range(x)
B1(ok, name) == IF ok THEN {} ELSE {name}
Sets(x) == {Range(s) : s \in Range(x)}
Smallest(s, F) == \A t \in F : Cardinality(s) <= Cardinality(t)

EstimandFailed(e, g, X, Y) ==
    IF Len(e.out.asts) = 0 THEN {"no_estimand"}
    ELSE B1(Sound(g, X, Y, e.out.asts, e.order, e.seeds, e.envs), "wrong_estimand")

GetBackdoor(e, g, X, Y) ==
    LET o == e.out
        found == Sets(o.sets)
        all == BackdoorSets(g, X, Y)
    IN  IF o.kind = "raised" THEN {"raised"}
        ELSE IF e.style = "simple" THEN
             IF ParentsOK(g, X, Y)
             THEN IF o.kind # "sets" THEN {"valid_parents_refused"}
                  ELSE B1(found = {ParentSet(g, X)} /\ Len(o.sets) = 1 /\ Len(o.sets[1]) = Cardinality(ParentSet(g, X)), "not_the_parents")
                       \cup EstimandFailed(e, g, X, Y)
             ELSE B1(o.kind = "none", "invalid_parents_returned")
        ELSE IF all = {} THEN B1(o.kind = "iderror", "set_claimed_where_none_exists")
        ELSE IF o.kind # "sets" THEN {"existing_set_missed"}
        ELSE (IF e.style = "minimal"
              THEN B1(Len(o.sets) = 1 /\ found \subseteq all /\ \A s \in found : Smallest(s, all), "not_a_minimal_set")
              ELSE B1(found = all /\ Len(o.sets) = Cardinality(found), "not_all_sets"))
             \cup EstimandFailed(e, g, X, Y)

GetFrontdoor(e, g, x, y) ==
    LET o == e.out
        found == Sets(o.sets)
        all == FrontdoorSets(g, x, y)
    IN  IF o.kind = "raised" THEN {"raised"}
        ELSE IF all = {} THEN B1(o.kind = "iderror", "set_claimed_where_none_exists")
        ELSE IF o.kind # "sets" THEN {"existing_set_missed"}
        ELSE (IF e.style = "all"
              THEN B1(found = all /\ Len(o.sets) = Cardinality(found), "not_all_sets")
              ELSE B1(Len(o.sets) = 1 /\ found \subseteq all /\ \A s \in found : Smallest(s, all), "not_a_minimal_set"))
             \cup EstimandFailed(e, g, {x}, {y})

(* the estimator is only ever fitted with a set that satisfies the criterion *)
Estimate(e, g, X, Y) ==
    LET o == e.out
        given == S_(e.adj) \cup S_(e.cov)
    IN  IF o.kind = "raised" THEN {"raised"}
        ELSE IF e.explicit
        THEN IF BackdoorOK(g, X, Y, given)
             THEN B1(o.kind = "fit" /\ S_(o.adj) = S_(e.adj) /\ S_(o.cov) = S_(e.cov), "valid_set_not_used")
             ELSE B1(o.kind = "refused", "invalid_set_used")
        ELSE IF o.kind = "fit"
        THEN B1(S_(o.cov) = {} /\ S_(o.adj) \cap (X \cup Y) = {} /\ BackdoorOK(g, X, Y, S_(o.adj)), "invalid_set_used")
        ELSE B1(~ParentsOK(g, X, Y), "valid_parents_not_used")

General(e, g, X, Y) ==
    LET o == e.out
        can == Identifiable(g, X, Y)
    IN  IF o.kind = "raised" THEN {"raised"}
        ELSE IF o.kind = "iderror" THEN B1(~can, "identifiable_effect_refused")
        ELSE IF ~can THEN {"unidentifiable_effect_claimed"}
        ELSE EstimandFailed(e, g, X, Y)

IdentifyFailed(e) ==
    LET g == GraphOf(e.g)
        X == S_(e.X)
        Y == S_(e.Y)
        x == e.X[1]
        y == e.Y[1]
        verdict ==
          CASE e.k = "bd_valid"  -> IF e.out.kind = "raised" THEN {"raised"} ELSE B1(e.out.val = BackdoorOK(g, X, Y, S_(e.Z)), "backdoor_validity")
            [] e.k = "bd_get"    -> GetBackdoor(e, g, X, Y)
            [] e.k = "bd_paths"  -> IF e.out.kind = "raised" THEN {"raised"}
                                    ELSE LET ps == {p.p : p \in Range(e.out.paths)} IN
                                         B1(ps = BackdoorPaths(g, x, y) /\ Len(e.out.paths) = Cardinality(ps), "backdoor_paths")
                                      \cup B1(\A p \in Range(e.out.paths) : p.collider = HasCollider(g, p.p), "collider")
                                      \cup B1(\A p \in Range(e.out.paths) : p.open = ~HasCollider(g, p.p), "open_path")
            [] e.k = "fd_valid"  -> IF e.out.kind = "raised" THEN {"raised"} ELSE B1(e.out.val = FrontdoorOK(g, x, y, S_(e.Z)), "frontdoor_validity")
            [] e.k = "fd_get"    -> GetFrontdoor(e, g, x, y)
            [] e.k = "iv_get"    -> IF e.out.kind = "raised" THEN {"raised"} ELSE B1(S_(e.out.set) = Instruments(g, x, y), "instruments")
            [] e.k = "iv_valid"  -> IF Instruments(g, x, y) = {} THEN B1(e.out.kind = "raised" \/ ~e.out.val, "instrument_claimed_where_none_exists")
                                    ELSE IF e.out.kind = "raised" THEN {"raised"}
                                    ELSE B1(e.out.val = (S_(e.Z) \subseteq Instruments(g, x, y)), "instrument_validity")
            [] e.k = "estimate"  -> Estimate(e, g, X, Y)
            [] e.k = "id"        -> General(e, g, X, Y)
    IN  verdict \cup B1(GraphOf(e.after) = g, "query_changed_graph") \cup B1(e.args = "", "query_changed_arguments")
=============================================================================
