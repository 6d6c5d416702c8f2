---- MODULE Gen_GraphEdit ----
(* every transition of MC_GraphEdit, printed for the replay into the code *)
EXTENDS MC_GraphEdit, Json
GenNext == \E h \in DOMAIN store : \E op \in Ops(store[h]) :
            /\ Legal(store[h], op)
            /\ InPlace(h, op)
            /\ PrintT("T " \o ToJson([g |-> store[h], op |-> op, r |-> store'[h]]))
GenSpec == Init /\ [][GenNext]_store
====
