------------------------------ MODULE Trace_Ring ------------------------------
(* Validates traces recorded from CircularBufferU16 against Ring.  A recorded *)
(* run that Ring cannot explain deadlocks before its last event.              *)
EXTENDS Ring, TLC, Json, IOUtils
VARIABLES run, l
Runs == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<run, l, q, cap, pk, res>>
E == Runs[run].evs[l]
IsEvent(o) == l <= Len(Runs[run].evs) /\ E.op = o /\ l' = l + 1 /\ UNCHANGED run
Match == /\ E.p = res'.p
         /\ E.p = "" => /\ E.r.v = res'.v /\ E.r.ok = res'.ok
                        /\ E.r.size = Len(q') /\ E.r.cap = cap' /\ E.r.empty = (q' = <<>>)
TInit == Init /\ l = 1 /\ run \in 1..Len(Runs)
Done == l > Len(Runs[run].evs) /\ UNCHANGED tvars
TNext == \/ IsEvent("push") /\ Push(E.x) /\ Match
         \/ IsEvent("pophead") /\ PopHead /\ Match
         \/ IsEvent("poptail") /\ PopTail /\ Match
         \/ IsEvent("head") /\ GetHead /\ Match
         \/ IsEvent("tail") /\ GetTail /\ Match
         \/ IsEvent("peek") /\ Peek /\ Match
         \/ IsEvent("confirm") /\ Confirm /\ Match
         \/ IsEvent("discard") /\ Discard /\ Match
         \/ IsEvent("clear") /\ Clear /\ Match
         \/ IsEvent("setcap") /\ SetCap(E.n) /\ Match
         \/ IsEvent("setmincap") /\ SetMinCap(E.n) /\ Match
         \/ IsEvent("spin") /\ Spin(E.n, E.x) /\ Match
         \/ Done
=============================================================================
