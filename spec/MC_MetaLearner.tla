-------------------------- MODULE MC_MetaLearner --------------------------
(* laws of the meta-learners over all small data sets *)
EXTENDS MetaLearner
CONSTANTS N, F, Y
VARIABLE rows, learner, mode
Arms == {<<0>>, <<1>>, <<2>>}
RowSet == [f : F, t : Arms, y : {<<v>> : v \in Y}]
Init == rows \in [1..N -> RowSet] /\ ArmsOf(rows) = Arms /\ learner \in {"S", "T", "X"} /\ mode \in {"reg", "label"}
        /\ \A i \in 1..N-1 : rows[i].t = rows[i+1].t \/ LexLess(rows[i].t, rows[i+1].t)
Next == UNCHANGED <<rows, learner, mode>>
Tests == <<0, 1>>
Eff(t, c, r) == Effects(learner, rows, 1, mode, t, c, r, Tests)
(* swapping treatment and control flips the sign (and the roles of the two groups) *)
Antisymmetric == (learner = "X" => mode = "reg") => \A t \in Arms : \A c \in Arms \ {t} :
    Eff(t, c, 1) = [i \in DOMAIN Tests |-> Times(-1, Eff(c, t, 3)[i])]
(* effects of S and T compose *)
Transitive == learner # "X" => \A t, c, d \in Arms : (t # c /\ c # d /\ t # d) =>
    Eff(t, d, 2) = [i \in DOMAIN Tests |-> Plus(Eff(t, c, 2)[i], Eff(c, d, 2)[i])]
(* the order of the rows is irrelevant *)
OrderFree == LET rev == [i \in 1..N |-> rows[N + 1 - i]] IN
    Effects(learner, rev, 1, mode, <<1>>, <<0>>, 2, Tests) = Eff(<<1>>, <<0>>, 2)
(* rows of other arms do not matter to T and X *)
Local == learner # "S" =>
    Effects(learner, Select(rows, LAMBDA r : r.t # <<2>>), 1, mode, <<1>>, <<0>>, 2, Tests) = Eff(<<1>>, <<0>>, 2)
Inv == Antisymmetric /\ Transitive /\ OrderFree /\ Local
=============================================================================
