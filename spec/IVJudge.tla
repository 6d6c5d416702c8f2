------------------------------- MODULE IVJudge -------------------------------
(* what was recorded from two-stage estimators *)
EXTENDS IV
B1(ok, name) == IF ok THEN {} ELSE {name}
Has3(got, f) == got = <<f.n, f.s, f.q>>

(* an ask: v, w, x of the individuals asked about (their own or new ones), how treat and control were given *)
Given(how, val, default, e, i) ==
    IF how = "none" THEN [j \in DOMAIN e.x[1] |-> default]
    ELSE XRow(e, IF how = "rows" THEN val[i] ELSE val[1])
Want(e, a) ==
    LET x1(i) == Given(a.thow, a.treat, 1, e, i)
        x0(i) == Given(a.chow, a.control, 0, e, i)
        each == TLCEval([i \in DOMAIN a.x |->
                   IF a.quantity = "CF" THEN Outcome(e, XRow(e, a.x[i]), a.v[i], a.w[i])
                   ELSE Effect(e, x1(i), x0(i), a.v[i], a.w[i])])
    IN IF a.quantity \in {"ATE", "CATE"}
       THEN <<[j \in 1 .. e.D |-> Sum([i \in DOMAIN each |-> each[i][j]])]>>
       ELSE each
(* effects of every combination of categories, or of the default treatment, for each outcome *)
WantAll(e, a) ==
    LET arms == IF e.xdisc THEN Combos(Levels(e.x)) ELSE <<[j \in DOMAIN e.x[1] |-> 0], [j \in DOMAIN e.x[1] |-> 1]>>
    IN [i \in DOMAIN a.x |-> [d \in 1 .. e.D |-> [k \in DOMAIN arms |-> Effect(e, arms[k], arms[1], a.v[i], a.w[i])[d]]]]
AskFailed(e, a) ==
    IF a.raised # "" THEN {"raised by " \o a.quantity}
    ELSE IF a.quantity = "all" THEN B1(a.out = WantAll(e, a), "effects of all")
    ELSE B1(a.out = Want(e, a), a.quantity)
IVFailed(e) ==
    IF e.raised # "" THEN {"raised"} ELSE
    B1(e.kept, "data changed")
    \cup B1(Len(e.fit1) = 1 /\ Len(e.fit2) = 1, "each model fitted once")
    \cup (IF Len(e.fit1) # 1 \/ Len(e.fit2) # 1 THEN {} ELSE
          LET f == e.fit1[1]
              g == e.fit2[1] IN
          B1(Len(f.X) = Len(e.x) /\ Len(g.X) = Len(e.x), "rows")
          \cup B1(\A i \in DOMAIN f.X : Has3(f.X[i], Stage1(e, i)), "features of the first stage")
          \cup B1(\A i \in DOMAIN f.y : Has3(f.y[i], Target1(e, i)), "targets of the first stage")
          \cup B1(\A i \in DOMAIN g.X : Has3(g.X[i], Stage2(e, i)), "features of the second stage")
          \cup B1(\A i \in DOMAIN g.y : Has3(g.y[i], Plain(e.y[i])), "targets of the second stage"))
    \cup UNION {AskFailed(e, e.asks[k]) : k \in DOMAIN e.asks}
=============================================================================
