---------------------------- MODULE Trace_Raster ----------------------------
(* Validates rasterized streams and encoded masks against the raster machine. *)
EXTENDS Raster, Json, IOUtils
VARIABLES run, l
Runs == ndJsonDeserialize(IOEnv.TRACE)
E == Runs[run].evs[l]
tvars == <<run, l, s, box, nops>>
TInit == run \in 1..Len(Runs) /\ l = 1 /\ Init
IsEvent(o) == l <= Len(Runs[run].evs) /\ E.op = o /\ E.p = "" /\ l' = l + 1 /\ UNCHANGED <<run, s, box, nops>>
ImgOf(px) == {px[i] : i \in 1..Len(px)}
(* the returned mask is exactly the image: no missing, no extra, no doubled pixels *)
Same(r, img) == /\ r.nil = (img = {})
                /\ Len(r.px) = Cardinality(img)
                /\ ImgOf(r.px) = img
                /\ img # {} => r.rect = Tight(img)
Raster == /\ IsEvent("rasterize")
          /\ E.r.same /\ E.r.past
          /\ LET w == RunCode(E.data)
             IN IF Len(E.data) = 0 THEN E.r.ok /\ E.r.nil
                ELSE \/ E.r.ok = w.ok /\ w.ok /\ (w.s.zero \/ Same(E.r, w.s.img))
                     \/ ~w.ok /\ ~E.r.ok /\ E.r.nil
                     \/ w.ok /\ w.s.zero /\ ~E.r.ok /\ E.r.nil   \* value zero is reserved
Encode == /\ IsEvent("encode")
          /\ E.r.ok /\ E.r.kept /\ E.r.det /\ E.r.src /\ E.r.past
          /\ LET img == ImgOf(E.px)
             IN /\ Same(E.r, img)
                /\ E.r.tight = IF img = {} THEN <<0, 0, 0, 0>> ELSE Tight(img)
                /\ Len(E.r.code) = E.r.ncode =>      \* the encoder's own output, read by the machine
                      LET w == RunCode(E.r.code) IN w.ok /\ ~w.s.zero /\ w.s.img = img
Done == l > Len(Runs[run].evs) /\ UNCHANGED tvars
TNext == Raster \/ Encode \/ Done
=============================================================================
