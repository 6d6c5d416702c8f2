---------------------------- MODULE MC_Lifecycle ----------------------------
(* all histories of two objects of one configuration; an object which lets   *)
(* anything but its last fit into its answers is caught by some history      *)
EXTENDS Lifecycle
CONSTANTS Data, Questions, Depth, Flaw
VARIABLES store, known, memory, steps, hist
vars == <<store, known, memory, steps, hist>>

(* what an implementation keeps per object: the fits it saw and the questions it was asked *)
Init == /\ store = New(New(<<>>, "c"), "c") /\ known = {} /\ steps = 0 /\ hist = <<>>
        /\ memory = [h \in 1..2 |-> [fits |-> <<>>, asks |-> 0]]
(* its answer; Flaw names a way to be wrong *)
Answer(h, q) ==
    LET m == memory[h] IN
    CASE Flaw = "none" -> <<m.fits[Len(m.fits)], q>>
      [] Flaw = "first fit" -> <<m.fits[1], q>>
      [] Flaw = "counts" -> <<m.fits[Len(m.fits)], q, m.asks>>
      [] Flaw = "shared" -> <<memory[1].fits, q>>
Useful(h) == h = 1 \/ \E i \in DOMAIN hist : hist[i][2] = 1
DoFit(h, d) == /\ store' = Fit(store, h, d)
               /\ memory' = [memory EXCEPT ![h].fits = Append(@, d)]
               /\ hist' = Append(hist, <<"fit", h, d>>)
               /\ UNCHANGED known
DoAsk(h, q) == /\ ~MustRefuse(store[h])
               /\ known' = known \cup {[key |-> KeyOf(store[h], q), ans |-> Answer(h, q)]}
               /\ memory' = [memory EXCEPT ![h].asks = @ + 1]
               /\ hist' = Append(hist, <<"ask", h, q>>)
               /\ UNCHANGED store
DoReject(h, q) == /\ MustRefuse(store[h])
                  /\ hist' = Append(hist, <<"ask", h, q>>)
                  /\ UNCHANGED <<store, known, memory>>
Next == steps < Depth /\ steps' = steps + 1 /\ \E h \in 1..2 : Useful(h) /\
            ((\E d \in Data : DoFit(h, d)) \/ \E q \in Questions : DoAsk(h, q) \/ DoReject(h, q))
Spec == Init /\ [][Next]_vars
Functional == \A r, s \in known : r.key = s.key => r.ans = s.ans
=============================================================================
