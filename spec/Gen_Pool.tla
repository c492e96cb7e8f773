------------------------------ MODULE Gen_Pool ------------------------------
(* every sequence of gets and puts by a few holders, up to a length            *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Holders, MaxLen
VARIABLES h, holding
Init == h = <<>> /\ holding = {}
Next == \/ Len(h) < MaxLen /\ \E w \in Holders :
             /\ h' = Append(h, IF w \in holding THEN <<"put", w>> ELSE <<"get", w>>)
             /\ holding' = (IF w \in holding THEN holding \ {w} ELSE holding \cup {w})
        \/ Len(h) = MaxLen /\ UNCHANGED <<h, holding>>
Emit == Len(h) = MaxLen => PrintT("@@" \o ToJson(h))
=============================================================================
