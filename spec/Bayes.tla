-------------------------------- MODULE Bayes --------------------------------
(* Bayesian networks: a directed acyclic graph over named columns, a state    *)
(* per column (numeric, or categories in sorted order), a conditional         *)
(* distribution of every node given its parents, and interventions.  With     *)
(* point-like distributions a network is a system of structural equations,    *)
(* and everything it answers can be worked out.                               *)
EXTENDS Graph

NONE == 999999          \* not observed, not intervened
OPEN == 888888          \* not determined: classes which are (nearly) as likely as each other

(* ------------------------------- the graph -------------------------------- *)
Least(S) == CHOOSE a \in S : \A b \in S : a <= b
Most(S) == CHOOSE a \in S : \A b \in S : a >= b
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE <<Least(S)>> \o Sorted(S \ {Least(S)})
RECURSIVE Linked(_, _)
Linked(g, S) == LET T == S \cup Pa(g, S) \cup Ch(g, S) IN IF T = S THEN S ELSE Linked(g, T)
OnePiece(g) == g.V # {} /\ \A v \in g.V : Linked(g, {v}) = g.V
Accepted(g) == Acyclic(g) /\ OnePiece(g)
Upstream(g, S) == Pa(g, S)
Downstream(g, S) == Ch(g, S)
Markov(g, S) == Pa(g, S) \cup Ch(g, S) \cup Pa(g, Ch(g, S))
Blanket(g, S, kind, self) ==
    LET b == CASE kind = "markov" -> Markov(g, S)
               [] kind = "downstream" -> Downstream(g, S)
               [] OTHER -> Upstream(g, S)
    IN IF self THEN b \cup S ELSE b \ S

(* ------------------------- codes of the categories ------------------------ *)
Classes(cells) == Sorted(Range(cells))
CodeOf(classes, v) == (CHOOSE i \in DOMAIN classes : classes[i] = v) - 1

(* ------------------------- structural equations --------------------------- *)
(* net: [kind, k (numbers of classes), pa (parents in the order of their      *)
(* names), bias, w]; w[n] has a row per parent and a column per output, and a *)
(* single row for a category without parents                                  *)
RECURSIVE Dot(_, _, _)
Dot(x, w, c) == IF x = <<>> THEN 0 ELSE Head(x) * Head(w)[c] + Dot(Tail(x), Tail(w), c)
Margin == 40            \* of log-odds: the other classes are never drawn
Likeliest(s) ==
    LET best == CHOOSE i \in DOMAIN s : \A j \in DOMAIN s : s[i] >= s[j]
    IN IF \A j \in DOMAIN s : j = best \/ s[best] - s[j] >= Margin THEN best - 1 ELSE OPEN
Draw(net, n, in) ==
    IF \E i \in DOMAIN in : in[i] = OPEN THEN OPEN
    ELSE IF net.kind[n] = "cat"
         THEN Likeliest([c \in 1 .. net.k[n] |-> IF in = <<>> THEN net.w[n][1][c] ELSE Dot(in, net.w[n], c)])
         ELSE net.bias[n] + (IF in = <<>> THEN 0 ELSE Dot(in, net.w[n], 1))

(* the value of a node: what the intervention says, else what was observed,   *)
(* else what follows from its parents                                         *)
RECURSIVE Value(_, _, _, _)
Value(net, do, row, n) ==
    IF do[n] # NONE THEN do[n]
    ELSE IF row[n] # NONE THEN row[n]
    ELSE Draw(net, n, [i \in DOMAIN net.pa[n] |-> Value(net, do, row, net.pa[n][i])])

Nothing(net) == [n \in DOMAIN net.kind |-> NONE]
Over(do, more) == [n \in DOMAIN do |-> IF more[n] # NONE THEN more[n] ELSE do[n]]
Hide(row, S) == [n \in DOMAIN row |-> IF n \in S THEN NONE ELSE row[n]]

Sampled(net, do, row, n) == Value(net, do, row, n)
(* outcomes are predicted, even when they were observed *)
Predicted(net, do, row, outs, n) == Value(net, do, Hide(row, outs), n)
(* the effect of a treatment: every other observed value is held *)
Treated(net, do, row, outs, treat, n) == Predicted(net, Over(do, treat), row, outs, n)
Shift(a, b) == IF a = OPEN \/ b = OPEN THEN OPEN ELSE a - b

(* ------------------------------ the life of a network --------------------- *)
(* the state of the objects is the sequence of their interventions            *)
Fit(objs, o) == [objs EXCEPT ![o] = [n \in DOMAIN @ |-> NONE]]
FitCopy(objs, o) == Append(objs, [n \in DOMAIN objs[o] |-> NONE])
Do(objs, o, more) == [objs EXCEPT ![o] = Over(@, more)]
DoCopy(objs, o, more) == Append(objs, Over(objs[o], more))
=============================================================================
