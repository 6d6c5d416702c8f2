----------------------------- MODULE BayesJudge ------------------------------
(* what was recorded from Bayesian networks *)
EXTENDS Bayes
B1(ok, name) == IF ok THEN {} ELSE {name}
Off(a, b) == a - b > 2 \/ b - a > 2          \* thousandths
Num(got, v) == v = OPEN \/ ~Off(got, 1000 * v)

GraphFailed(e) ==
    LET g == [V |-> Range(e.V), E |-> {<<p[1], p[2]>> : p \in Range(e.E)}, B |-> {}] IN
    IF e.accepted # Accepted(g) THEN {"accepted"}
    ELSE IF ~e.accepted THEN {}
    ELSE B1(e.nodes = Sorted(g.V), "nodes")
         \cup B1(Range(e.edges) = {<<p[1], p[2]>> : p \in Range(e.E)} /\ Len(e.edges) = Cardinality(g.E), "edges")
         \cup B1(\A v \in DOMAIN e.parents : e.parents[v] = Sorted(Pa(g, {e.nodes[v]})), "parents")
         \cup B1(\A v \in DOMAIN e.children : e.children[v] = Sorted(Ch(g, {e.nodes[v]})), "children")
         \cup B1(IsTopological(g, e.topo), "topological order")
         \cup B1(e.frozen, "frozen")
         \cup UNION {LET q == e.asks[i]
                         want == Blanket(g, Range(q.of), q.kind, q.self)
                     IN IF q.topo THEN B1(Range(q.got) = want /\ IsTopological(Sub(g, want), q.got), "blanket")
                                  ELSE B1(q.got = Sorted(want), "blanket") : i \in DOMAIN e.asks}

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
CodecFailed(e) ==
    IF e.cat # e.category THEN {"kind"}
    ELSE IF ~e.cat
    THEN LET n == Len(e.cells)
             s == Sum(e.cells)
             q == Sum([i \in DOMAIN e.cells |-> e.cells[i] * e.cells[i]])
         IN B1(e.sum = s /\ e.min = Least(Range(e.cells)) /\ e.max = Most(Range(e.cells)) /\ e.var = n * q - s * s, "moments")
            \cup B1(e.codes = e.new /\ e.back = e.new, "values")
    ELSE LET c == Classes(e.cells)
             known == Range(e.new) \subseteq Range(c)
         IN B1(e.classes = c /\ e.binary = (Len(c) = 2), "classes")
            \cup IF ~known THEN B1(e.refused, "unknown class")
                 ELSE B1(~e.refused /\ e.codes = [i \in DOMAIN e.new |-> CodeOf(c, e.new[i])] /\ e.back = e.new, "codes")

(* ---- the answers of a network; numbers come in thousandths, categories as codes, probabilities per class in thousandths *)
CellFailed(net, n, proba, got, v) ==
    IF v = OPEN THEN {}
    ELSE IF net.kind[n] # "cat" THEN B1(Len(got) = 1 /\ Num(got[1], v), "number")
    ELSE IF proba THEN B1(got = [c \in 1 .. net.k[n] |-> IF c - 1 = v THEN 1000 ELSE 0], "probability")
    ELSE B1(got = <<v>>, "class")
ShiftFailed(net, n, got, a, b) ==
    IF a = OPEN \/ b = OPEN THEN {}
    ELSE IF net.kind[n] # "cat" THEN B1(Len(got) = 1 /\ Num(got[1], a - b), "effect")
    ELSE B1(got = [c \in 1 .. net.k[n] |-> (IF c - 1 = a THEN 1000 ELSE 0) - (IF c - 1 = b THEN 1000 ELSE 0)], "effect on classes")

AnswerFailed(net, do, o) ==
    CASE o.op = "sample" ->
           B1(Range(o.cols) = (IF o.nodes = <<>> THEN DOMAIN net.kind ELSE Range(o.nodes)), "columns")
           \cup B1(o.index, "index") \cup B1(Len(o.out) = Len(o.rows), "rows")
           \cup UNION {UNION {CellFailed(net, o.cols[j], FALSE, o.out[i][j], Sampled(net, do, o.rows[i], o.cols[j])) : j \in DOMAIN o.cols} : i \in DOMAIN o.out}
      [] o.op = "predict" ->
           B1(o.cols = o.outs, "columns") \cup B1(Len(o.out) = Len(o.rows), "rows")
           \cup UNION {UNION {CellFailed(net, o.cols[j], o.proba, o.out[i][j], Predicted(net, do, o.rows[i], Range(o.outs), o.cols[j])) : j \in DOMAIN o.cols} : i \in DOMAIN o.out}
      [] o.op = "estimate" ->
           B1(o.cols = o.outs, "columns") \cup B1(Len(o.out) = Len(o.rows), "rows")
           \cup UNION {UNION {ShiftFailed(net, o.cols[j], o.out[i][j],
                                          Treated(net, do, o.rows[i], Range(o.outs), o.treat, o.cols[j]),
                                          Treated(net, do, o.rows[i], Range(o.outs), o.control, o.cols[j])) : j \in DOMAIN o.cols} : i \in DOMAIN o.out}
      [] OTHER -> {}
After(objs, o) ==
    CASE o.op = "fit" -> IF o.copy THEN FitCopy(objs, o.obj) ELSE Fit(objs, o.obj)
      [] o.op = "do" -> IF o.copy THEN DoCopy(objs, o.obj, o.more) ELSE Do(objs, o.obj, o.more)
      [] OTHER -> objs
(* after every operation each object tells its interventions *)
RECURSIVE OpsFailed(_, _, _)
OpsFailed(net, objs, ops) ==
    IF ops = <<>> THEN {}
    ELSE LET o == Head(ops)
             next == After(objs, o)
         IN IF o.raised # "" THEN {o.op \o " raised"}
            ELSE AnswerFailed(net, objs[o.obj], o)
                 \cup B1(o.told = next, "interventions after " \o o.op)
                 \cup B1(o.kept, "data changed by " \o o.op)
                 \cup OpsFailed(net, next, Tail(ops))

BayesFailed(e) ==
    IF e.raised # "" THEN {"raised"} ELSE
    CASE e.k = "graph" -> GraphFailed(e)
      [] e.k = "codec" -> CodecFailed(e)
      [] e.k = "network" -> OpsFailed(e.net, <<Nothing(e.net)>>, e.ops)
      [] e.k = "again" -> B1(e.first = e.second, "not the same again")
      [] e.k = "learn" -> UNION {B1(e.facts[i].low <= e.facts[i].got /\ e.facts[i].got <= e.facts[i].high, e.facts[i].name) : i \in DOMAIN e.facts}
      [] e.k = "refuse" -> B1(e.refused, "not refused")
=============================================================================
