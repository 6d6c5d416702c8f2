----------------------------- MODULE Lifecycle -----------------------------
(* The life of estimators, interpreters and policies: configured, fitted any *)
(* number of times, asked any number of questions.  An answer is a function  *)
(* of the configuration, the data of the last fit and the question: nothing  *)
(* of earlier fits or questions, or of other objects, shows in it.           *)
EXTENDS Integers, Sequences, FiniteSets

None == ""
Broken == "broken"          \* a fit failed: it may answer as before or refuse, nothing else

(* store: handle -> [cfg, data, prior]; known: set of [key, ans] *)
New(store, cfg) == Append(store, [cfg |-> cfg, data |-> None, prior |-> None])
Fit(store, h, d) == [store EXCEPT ![h].data = d, ![h].prior = None]
BadFit(store, h) == [store EXCEPT ![h].data = Broken, ![h].prior = IF @ # None THEN @ ELSE IF store[h].data = Broken THEN None ELSE store[h].data]
KeyOf(o, q) == <<o.cfg, IF o.data = Broken THEN o.prior ELSE o.data, q>>
MayRefuse(o) == o.data \in {None, Broken}
MustRefuse(o) == o.data = None \/ (o.data = Broken /\ o.prior = None)
Recorded(known, key) == {r \in known : r.key = key}
=============================================================================
