------------------------------- MODULE MC_Why -------------------------------
(* a small study with two treatments, asked everything; the laws which tie   *)
(* the answers together                                                      *)
EXTENDS Why, TLC
CONSTANTS N, K
VARIABLES rows, ind
vars == <<rows, ind>>

Arms == (0..K-1) \X (0..K-1)
Rows(n) == [1..n -> [f : {<<0>>, <<1>>}, t : Arms, y : {<<0>>, <<1>>, <<-2>>}]]
(* every combination of labels is there once, outcomes and features are free *)
A == SortLex(Arms)
Init == /\ ind \in [f : {<<0>>, <<1>>}, t : Arms, y : {<<0>>, <<1>>}, p : {0, 3}]
        /\ rows = <<>>
Next == /\ Len(rows) < N
        /\ \E f \in {<<0>>, <<1>>}, y \in {<<0>>, <<2>>} :
             rows' = Append(rows, [f |-> f, t |-> A[1 + (Len(rows) % Len(A))], x |-> <<>>, y |-> y])
        /\ UNCHANGED ind
Spec == Init /\ [][Next]_vars

M(cost) == [rows |-> rows, w |-> <<>>, v |-> <<1>>, mode |-> "reg", target |-> 1, scale |-> 1, cost |-> cost]
Full == Len(rows) >= K * K

(* an unchanged treatment changes nothing, and going back undoes a change *)
WhatIfOK == Full => \A x \in 1..2, v \in 0..K-1 :
    /\ v = ind.t[x] => WhatIf(M(FALSE), x, <<ind>>, <<v>>) = <<ind.y[1]>>
    /\ LET new == WhatIf(M(FALSE), x, <<ind>>, <<v>>)[1]
           then == [ind EXCEPT !.t[x] = v, !.y = <<new>>]
       IN WhatIf(M(FALSE), x, <<then>>, <<ind.t[x]>>) = <<ind.y[1]>>
    /\ WhatIf(M(TRUE), x, <<ind>>, <<v>>)[1] = 2 * WhatIf(M(FALSE), x, <<ind>>, <<v>>)[1] - ind.y[1] - ind.p
(* one line per label but the control, or per combination of labels but the controls' *)
LinesOK == Full => \A c1, c2 \in 0..K-1 :
    /\ Len(Sequential(M(FALSE), <<1, 2>>, <<>>, <<c1, c2>>)) = 2 * (K - 1)
    /\ Len(Combined(M(FALSE), <<1, 2>>, <<>>, <<c1, c2>>)) = K * K - 1
    /\ Combined(M(FALSE), <<2>>, <<>>, <<c1>>) = Sequential(M(FALSE), <<2>>, <<>>, <<c1>>)
    /\ c1 = 0 /\ c2 = 0 => Sequential(M(FALSE), <<1, 2>>, <<>>, <<>>) = Sequential(M(FALSE), <<1, 2>>, <<>>, <<c1, c2>>)
(* the own effect is what the table says of the own label, and nothing for the control *)
IndividualOK == Full =>
    LET I == Individual(M(FALSE), <<ind>>, <<>>) IN
    /\ Len(I) = 2
    /\ \A k \in 1..2 : /\ I[k].t = 0 => I[k].e = 0
                       /\ I[k].t # 0 => LET S == Sequential(M(FALSE), <<k>>, <<>>, <<>>)
                                            j == CHOOSE m \in DOMAIN S : S[m].t = <<ind.t[k]>>
                                        IN I[k].e = DEff(M(FALSE), S[j].x, S[j].t, S[j].c, <<ind.f>>)[1]
                       (* and it is what is lost when the treatment is taken away *)
                       /\ WhatIf(M(FALSE), k, <<ind>>, <<0>>)[1] = ind.y[1] - I[k].e
PolicyOK == Full => LET E == PolicyEffects(M(FALSE), <<1, 2>>, <<ind>>, <<>>) IN
    Len(E) = K * K /\ E[1] = <<0>> /\ \A k \in 2..K*K : E[k] = DEff(M(FALSE), <<1, 2>>, A[k], A[1], <<ind.f>>)
UpliftOK == Full => LET U == Uplift(M(FALSE), <<1>>, <<ind>>, <<>>, <<>>) IN
    IF ind.t[1] \in {0, K-1} THEN Len(U) = 1 /\ U[1].x = (IF ind.t[1] = 0 THEN 0 ELSE 1) ELSE U = <<>>
(* roles: what is identified is used only if nothing is asked for, and a treatment is nothing else *)
RolesOK == rows = <<>> => \A T \in {<<1>>, <<1, 2>>, <<3>>}, w, v, z \in {<<>>, <<1>>, <<3>>, <<2, 4>>} :
    LET a == [t |-> T, w |-> w, v |-> v, z |-> z]
        r == RolesFor(a, T, EveryOther(<<5, 4, 3, 2, 1>>, 5, T))
    IN /\ RangeOf(r.t) \cap (RangeOf(r.w) \cup RangeOf(r.v) \cup RangeOf(r.z)) = {}
       /\ r.w # <<>> \/ r.v # <<>> \/ r.z # <<>>
       /\ 5 \notin RangeOf(r.v)
       /\ Cardinality(Keys(T, TRUE)) = Len(T) * Len(T) /\ Cardinality(Keys(T, FALSE)) = Len(T)
=============================================================================
