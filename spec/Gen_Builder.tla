----------------------------- MODULE Gen_Builder ----------------------------
(* Prints, for every state of the themes of MC_Builder and every operation, a  *)
(* sequence of operations that leads there and ends with that operation.       *)
EXTENDS MC_Builder, Json
VARIABLE path
GInit == Init /\ path = Start(theme)
GNext == n < Depth /\ n' = n + 1 /\ UNCHANGED theme
         /\ \E e \in Pool(theme) : Do(e) /\ path' = Append(path, e) /\ PrintT("@@" \o ToJson([theme |-> theme, ops |-> path']))
GView == <<theme, b, n>>
=============================================================================
