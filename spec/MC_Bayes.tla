------------------------------- MODULE MC_Bayes ------------------------------
(* every small network, and every short life of it *)
EXTENDS Bayes
CONSTANTS N, Lives
VARIABLES net, g, objs, last
vars == <<net, g, objs, last>>
Nodes == 1 .. N
Pairs == {<<a, b>> \in Nodes \X Nodes : a # b}

(* all acyclic graphs of one piece; the equations are fixed *)
Weight(a, b) == ((a + 2 * b) % 5) - 2
NetOf(G, K) ==
    LET pa(n) == Sorted(Pa(G, {n})) IN
    [kind |-> [n \in Nodes |-> IF n \in K THEN "cat" ELSE "num"],
     k |-> [n \in Nodes |-> IF n \in K THEN 2 ELSE 0],
     pa |-> [n \in Nodes |-> pa(n)],
     bias |-> [n \in Nodes |-> n],
     w |-> [n \in Nodes |->
            IF pa(n) = <<>> THEN <<IF n \in K THEN <<0, (50 * (n % 2)) - 20>> ELSE <<1>>>>
            ELSE [i \in DOMAIN pa(n) |-> IF n \in K THEN <<0, 60 * Weight(pa(n)[i], n)>> ELSE <<Weight(pa(n)[i], n)>>]]]
Graphs == {E \in SUBSET Pairs : Accepted([V |-> Nodes, E |-> E, B |-> {}])}
Levels(n) == IF net.kind[n] = "cat" THEN {0, 1} ELSE {1, 2}
One(n, v) == [m \in Nodes |-> IF m = n THEN v ELSE NONE]

Init == \E E \in Graphs : \E K \in SUBSET Nodes :
           /\ g = [V |-> Nodes, E |-> E, B |-> {}]
           /\ net = NetOf(g, K)
           /\ objs = <<[n \in Nodes |-> NONE]>>
           /\ last = [op |-> "none", obj |-> 0, objs |-> objs]
Act(op, o, new) == objs' = new /\ last' = [op |-> op, obj |-> o, objs |-> objs] /\ UNCHANGED <<net, g>>
Next == \E o \in DOMAIN objs :
           \/ Act("fit", o, Fit(objs, o))
           \/ \E n \in Nodes : \E v \in Levels(n) : Act("do", o, Do(objs, o, One(n, v)))
           \/ /\ Len(objs) < 2
              /\ \/ Act("fit copy", o, FitCopy(objs, o))
                 \/ \E n \in Nodes : \E v \in Levels(n) : Act("do copy", o, DoCopy(objs, o, One(n, v)))
Small == TLCGet("level") <= Lives
Spec == Init /\ [][Next]_vars

Free == [n \in Nodes |-> NONE]
Rows == {[n \in Nodes |-> IF n \in S THEN (IF net.kind[n] = "cat" THEN 1 ELSE 2) ELSE NONE] : S \in SUBSET Nodes}
do == objs[1]
Born == last.op = "none"          \* what depends on the graph alone
Alone == Len(objs) = 1            \* what depends on one object alone

(* a node follows its parents and nothing else *)
BlanketOK == Born => \A n \in Nodes :
    /\ LET U == Markov(g, {n}) \ {n} IN Separated(g, {n}, Nodes \ (U \cup {n}), U)
    /\ LET U == Upstream(g, {n}) IN Separated(g, {n}, Nodes \ (U \cup De(g, {n})), U)
(* no smaller set will do *)
LeastOK == Born => \A n \in Nodes : \A U \in SUBSET (Markov(g, {n}) \ {n}) :
    Separated(g, {n}, Nodes \ (U \cup {n}), U) => U = Markov(g, {n}) \ {n}
(* interventions and observations reach descendants only *)
ReachOK == Alone => \A row \in Rows : \A n \in Nodes : \A m \in Nodes \ An(g, {n}) :
    \A v \in Levels(m) : /\ Value(net, Over(do, One(m, v)), row, n) = Value(net, do, row, n)
                         /\ Value(net, do, [row EXCEPT ![m] = v], n) = Value(net, do, row, n)
(* what is set is set, whatever was observed *)
SetOK == Alone => \A row \in Rows : \A n \in Nodes : \A v \in Levels(n) : Value(net, Over(do, One(n, v)), row, n) = v
(* given its parents a node does not depend on the rest *)
ParentsOK == Alone => \A row \in Rows : \A n \in Nodes : do[n] = NONE /\ row[n] = NONE =>
    Value(net, do, row, n) = Draw(net, n, [i \in DOMAIN net.pa[n] |-> Value(net, do, row, net.pa[n][i])])
(* to observe a node and to set it tell the same about the others, when it is drawn forwards *)
SeeOK == Alone => \A n \in Nodes : \A v \in Levels(n) : \A m \in Nodes : do[n] = NONE =>
    Value(net, Over(do, One(n, v)), Free, m) = Value(net, do, One(n, v), m)
(* an effect is the difference of two predictions, of objects on which the two values are set *)
EffectOK == Alone => \A row \in Rows : \A t \in Nodes : \A y \in Nodes : \A v \in Levels(t) :
    LET set == DoCopy(objs, 1, One(t, v)) IN
    Treated(net, do, row, {y}, One(t, v), y) = Predicted(net, set[Len(set)], row, {y}, y)
(* no effect without a directed path whose middle is neither set nor observed *)
PathOK == Alone => \A row \in Rows : \A t, y \in Nodes : t # y =>
    LET held == {n \in Nodes \ {t, y} : row[n] # NONE \/ do[n] # NONE}
        open == [g EXCEPT !.E = {e \in @ : e[2] \notin held}] IN
    t \notin An(open, {y}) \/ do[y] # NONE =>
        Cardinality({Treated(net, do, row, {y}, One(t, v), y) : v \in Levels(t)}) = 1
(* objects do not share their interventions *)
OwnOK == \A o \in DOMAIN last.objs : (o = last.obj /\ last.op \in {"fit", "do"}) \/ objs[o] = last.objs[o]
FitOK == /\ last.op = "fit" => objs[last.obj] = Free
         /\ last.op = "fit copy" => objs[Len(objs)] = Free
         /\ last.op = "do copy" => \A n \in Nodes : last.objs[last.obj][n] # NONE => objs[Len(objs)][n] # NONE
=============================================================================
