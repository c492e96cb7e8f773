------------------------------- MODULE Gen_Ring -------------------------------
(* Emits one script per transition of the reachable state graph of RingImpl   *)
(* (pushed values are all different and abstracted by the view): the shortest *)
(* history leading to the state followed by the operation.                    *)
EXTENDS RingImpl, TLC, Json, IOUtils
VARIABLE hist
H(op) == hist' = Append(hist, op)
Bound == Len(hist) < 16
GInit == Init /\ hist = <<>>
GNext == /\ Bound
         /\ \/ Push(Len(hist) + 1) /\ H([op |-> "push", x |-> Len(hist) + 1])
            \/ PopHead /\ H([op |-> "pophead"])
            \/ PopTail /\ H([op |-> "poptail"])
            \/ GetHead /\ H([op |-> "head"])
            \/ GetTail /\ H([op |-> "tail"])
            \/ Peek /\ H([op |-> "peek"])
            \/ Confirm /\ H([op |-> "confirm"])
            \/ Discard /\ H([op |-> "discard"])
            \/ Clear /\ H([op |-> "clear"])
            \/ \E n \in 0..MaxCap : SetCap(n) /\ H([op |-> "setcap", n |-> n])
            \/ \E n \in 0..MaxCap : SetMinCap(n) /\ H([op |-> "setmincap", n |-> n])
GView == <<cap, head, num, pk>>
Emit == PrintT("@@" \o ToJson(hist'))
=============================================================================
