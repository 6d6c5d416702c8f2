---- MODULE Gen_Lifecycle ----
(* every history of full length which ends in a question, printed for the replay into the code *)
EXTENDS MC_Lifecycle, TLC, Json
Show == (Len(hist) = Depth /\ hist[Depth][1] = "ask") => PrintT("H " \o ToJson(hist))
====
