----------------------------- MODULE Gen_Share ------------------------------
(* every order in which a few users can take their turns: how many users take  *)
(* how many turns each is given by Turns                                       *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT Shapes       \* e.g. {<<3, 3>>, <<2, 2, 2>>}
Quick == {<<3, 3>>, <<2, 2, 2>>}
Thorough == {<<4, 4>>, <<3, 3, 2>>, <<2, 2, 1, 1>>}
VARIABLES left, h
Init == h = <<>> /\ left \in Shapes
Next == \/ \E u \in DOMAIN left : left[u] > 0 /\ left' = [left EXCEPT ![u] = @ - 1] /\ h' = Append(h, u)
        \/ (\A u \in DOMAIN left : left[u] = 0) /\ UNCHANGED <<left, h>>
Emit == (\A u \in DOMAIN left : left[u] = 0) => PrintT("@@" \o ToJson(h))
=============================================================================
