---------------------------- MODULE PrepareJudge ----------------------------
(* what was recorded from preparing data *)
EXTENDS Prepare
B1(ok, name) == IF ok THEN {} ELSE {name}
Close(a, b, eps) == a - b <= eps /\ b - a <= eps

(* labels of the rows and the label column *)
SameRows(g, w) == g.rows = w.rows
(* a column without any value has no type of its own *)
Blank(c) == \A v \in RangeOf(c.cells) : IF Textual(c.kind) THEN v \in {NoText, "nan"} ELSE v = NA
SameLabel(g, w) == (w.label = <<>>) = (g.label = <<>>) /\ (w.label # <<>> => (Blank(g.label[1]) /\ Blank(w.label[1])) \/ (Textual(g.label[1].kind) = Textual(w.label[1].kind) /\ g.label[1].cells = w.label[1].cells))
FrameFailed(g, w) ==
    IF Names(g.out) # Names(w.out) THEN {"columns"}
    ELSE UNION {IF Blank(g.out[k]) /\ Blank(w.out[k]) THEN {}
                ELSE IF Textual(g.out[k].kind) # Textual(w.out[k].kind) THEN {"kind"}
                ELSE B1(g.out[k].kind = w.out[k].kind, "kind") \cup B1(g.out[k].cells = w.out[k].cells, "values") : k \in DOMAIN w.out}
CleanFailed(e) ==
    LET w == TLCEval(FitClean(e.o, e.frame, e.label))
        judge(g, v) == B1(SameRows(g, v), "rows") \cup B1(SameLabel(g, v), "labels") \cup FrameFailed(g, v)
    IN judge(e.got, w)
       \cup B1(~e.told \/ (RangeOf(e.dup) = w.dup /\ RangeOf(e.id) = w.id /\ RangeOf(e.const) = w.const), "dropped")
       \cup UNION {judge(e.asks[k].got, Apply(e.o, w.out, RangeOf(e.gone), e.asks[k].frame, e.asks[k].label)) : k \in DOMAIN e.asks}

EncodeFailed(e) ==
    B1(\A k \in DOMAIN e.new : \A i \in DOMAIN e.new[k] : e.codes[k][i] \in Codes(e.fit[k], e.new[k][i]), "codes")
    \cup B1(\A k \in DOMAIN e.some : \A i \in DOMAIN e.some[k] : e.texts[k][i] = Decode(e.fit[k], e.kinds[k], e.some[k][i]), "decoded")
    \cup B1(\A k \in DOMAIN e.new : \A i \in DOMAIN e.new[k] : e.back[k][i] = (IF e.new[k][i] \in RangeOf(Seen(e.fit[k])) THEN e.new[k][i]
                                                                                ELSE IF e.kinds[k] = "int" THEN 0 - 1 ELSE NA), "decodes what was encoded")
    \cup B1(e.index, "rows")
OneHotFailed(e) ==
    B1(e.out = [i \in DOMAIN e.new[1] |-> Concat([k \in DOMAIN e.fit |-> OneHot(e.fit[k], e.first, e.new[k][i])])], "one-hot") \cup B1(e.dense, "dense")

(* numbers come in thousandths *)
PreprocessFailed(e) ==
    LET W == Order(e.fit) IN
    IF e.names # Names(W) THEN {"columns"}
    ELSE B1(e.index, "rows") \cup
         UNION {LET c == W[k]
                    new == Named(e.new, c.name).cells
                    got == e.out[k]
                IN IF Len(got) # Len(new) THEN {"rows"}
                   ELSE IF c.kind \in {"int", "float"}
                   THEN IF e.scaled
                        THEN B1(\A i \in DOMAIN new : LET s == Standard(c.cells, new[i]) IN
                                   \/ s.root = 0
                                   \/ (s.over = 0 /\ Close(got[i], 0, 1))
                                   \/ /\ (got[i] > 0) = (s.over > 0)
                                      /\ LET a == (got[i] * got[i]) \div 1000           \* z^2, thousand times
                                             b == (1000 * s.over * s.over * s.n) \div (s.m * s.root)
                                         IN Close(a, b, 3 + b \div 100), "standardized")
                        ELSE B1(\A i \in DOMAIN new : LET f == Number(c.cells, new[i]) IN Close(got[i] * f.under, 1000 * f.over, f.under), "numbers")
                   ELSE B1(\A i \in DOMAIN new : LET a == Filled(c.cells)
                                                     b == Filled(new)
                                                 IN \E q \in Codes(a, b[i]) : got[i] = 1000 * q, "codes")
                : k \in DOMAIN W}

MapFailed(e) ==
    LET P == Plan(Names(e.fit), e.features, e.default)
        judge(o, F) == LET w == Mapped(P, e.fit, F) IN B1(~e.frame \/ o.names = w.names, "names") \cup B1(o.cells = w.cells, "values") \cup B1(~e.frame \/ o.index, "rows")
    IN judge(e.first, e.fit) \cup judge(e.again, e.fit) \cup judge(e.other, e.new) \cup judge(e.onenew, e.new)

TaskFailed(e) ==
    LET t == Task(e.kind, e.cells, RangeOf(e.out)) IN
    B1(e.task = t, "task") \cup B1(t \in {"binary", "multiclass"} => e.labels = Labels(e.cells, RangeOf(e.out)), "labels")
    \cup B1(t = "regression" => e.labels = <<>>, "labels")

Wanted(e, m) ==
    LET C == IF e.classes = <<>> THEN Sorted(RangeOf(e.y) \cup RangeOf(e.p)) ELSE e.classes
        last == C[Len(C)]
        one == IF e.pos # <<>> THEN e.pos[1] ELSE IF e.classes # <<>> THEN last ELSE LET S == Sorted(RangeOf(e.y)) IN S[Len(S)]
    IN CASE m = "accuracy" -> Accuracy(e.y, e.p)
         [] m = "precision" -> (IF e.task = "binary" THEN Precision(e.y, e.p, one) ELSE Mean([k \in DOMAIN C |-> Precision(e.y, e.p, C[k])]))
         [] m = "recall" -> (IF e.task = "binary" THEN Recall(e.y, e.p, one) ELSE Mean([k \in DOMAIN C |-> Recall(e.y, e.p, C[k])]))
         [] m = "f1" -> (IF e.task = "binary" THEN F1(e.y, e.p, one) ELSE Mean([k \in DOMAIN C |-> F1(e.y, e.p, C[k])]))
         [] m = "auc" -> AUC(e.y, e.s, LET S == Sorted(RangeOf(e.y)) IN S[Len(S)])
         [] m = "mae" -> MAE(e.y, e.p) [] m = "mse" -> MSE(e.y, e.p)
         [] m = "r2" -> R2(e.y, e.p) [] m = "wrong" -> Len(e.y) - Count(e.y, LAMBDA i : e.y[i] = e.p[i])
         [] OTHER -> 0
ScoreFailed(e) ==
    B1([i \in DOMAIN e.got |-> e.got[i].m] = e.asked, "metrics")
    \cup UNION {B1(IF e.got[i].m = "rmse"   \* its square is given, rounded
                   THEN Close(e.got[i].v, MSE(e.y, e.p), 3)
                   ELSE Close(e.got[i].v, Wanted(e, e.got[i].m), IF e.got[i].m = "wrong" THEN 0 ELSE 3), e.got[i].m) : i \in DOMAIN e.got}

(* importances come in millionths *)
SelectFailed(e) ==
    LET kept == {i \in DOMAIN e.imp : ~e.constant[i]}
        S == {i \in DOMAIN e.imp : e.names[i] \in RangeOf(e.selected)}
    IN B1(e.names = e.columns, "columns")
       \cup B1(RangeOf(e.selected) \subseteq {e.names[i] : i \in kept} /\ Cardinality(S) = Len(e.selected), "selected among the columns")
       \cup B1(\A i \in DOMAIN e.imp : e.constant[i] => e.imp[i] = 0, "importance of dropped columns")
       \cup B1(\A i \in kept : i # e.telling => e.imp[i] < e.imp[e.telling], "importance of the column which tells")
       \cup B1(CASE e.by = "threshold" -> LET bar == (1000000 * e.a) \div e.b IN {i \in kept : e.imp[i] > bar + 1} \subseteq S /\ S \subseteq {i \in kept : e.imp[i] >= bar - 1}
                 [] e.by = "quantile" -> LET bar == Quantile(e.imp, kept, e.a, e.b) IN {i \in kept : e.imp[i] > bar + 2} \subseteq S /\ S \subseteq {i \in kept : e.imp[i] >= bar - 2}
                 [] OTHER -> Cardinality(S) = HowMany(Cardinality(kept), e.a, e.b) /\ \A i \in S, j \in kept \ S : e.imp[i] >= e.imp[j], "selected")
       \cup B1(e.out = e.selected /\ e.index, "columns put out")

PrepareFailed(e) ==
    IF e.raised # "" THEN {"raised"}
    ELSE B1(e.kept, "data modified") \cup
         (CASE e.k = "clean" -> CleanFailed(e) [] e.k = "encode" -> EncodeFailed(e) [] e.k = "onehot" -> OneHotFailed(e)
            [] e.k = "preprocess" -> PreprocessFailed(e) [] e.k = "map" -> MapFailed(e) [] e.k = "task" -> TaskFailed(e)
            [] e.k = "score" -> ScoreFailed(e) [] e.k = "select" -> SelectFailed(e) [] OTHER -> {"malformed"})
=============================================================================
