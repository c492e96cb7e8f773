----------------------------- MODULE Trace_Pool -----------------------------
(* Recorded uses of a single instance pool: whoever gets an instance is its    *)
(* only holder until putting it back.                                          *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
VARIABLES run, l, held
Runs == ndJsonDeserialize(IOEnv.TRACE)
E == Runs[run].evs[l]
TInit == run \in 1..Len(Runs) /\ l = 1 /\ held = <<>>
IsEvent(o) == l <= Len(Runs[run].evs) /\ E.op = o /\ E.p = "" /\ l' = l + 1 /\ UNCHANGED run
Get == IsEvent("get") /\ E.w \notin DOMAIN held /\ E.r.inst \notin {held[w] : w \in DOMAIN held} /\ held' = (E.w :> E.r.inst) @@ held
Put == IsEvent("put") /\ E.w \in DOMAIN held /\ held[E.w] = E.r.inst /\ held' = [w \in DOMAIN held \ {E.w} |-> held[w]]
Done == l > Len(Runs[run].evs) /\ UNCHANGED <<run, l, held>>
TNext == Get \/ Put \/ Done
=============================================================================
