----------------------------- MODULE Gen_Raster -----------------------------
(* Emits every stream made of an opening chosen from Openings followed by one *)
(* arbitrary control byte with operands from GVals, complete, truncated at    *)
(* every point, or undefined; and the same stream followed by one more pixel. *)
EXTENDS Raster, Json
VARIABLES code, phase
gvars == <<s, box, nops, code, phase>>
Openings == {<<>>, <<128>>, <<135, 9, 3, 252>>, <<2, 5>>}
GInit == Init /\ code \in Openings /\ phase = 0
Emit(x) == PrintT("@@" \o ToJson(x))
GNext == /\ phase = 0
         /\ \E c \in 0..255 : \E k \in 0..NumArgs(c) : \E args \in Args(c, k) :
              /\ code' = code \o <<c>> \o args
              /\ phase' = 1 /\ UNCHANGED vars
              /\ Emit(code')
              /\ k = NumArgs(c) => Emit(code' \o <<129, 77>>)
=============================================================================
