----------------------------- MODULE Gen_Format -----------------------------
(* Prints every font of the catalog of MC_Format. *)
EXTENDS MC_Format, Json
GInit == pick \in Picks /\ len = 0 /\ data = <<>> /\ s = Start
GNext == /\ data = <<>> /\ data' = Whole(pick) /\ PrintT("@@" \o ToJson(data')) /\ UNCHANGED <<pick, len, s>>
=============================================================================
