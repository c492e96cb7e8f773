----------------------------- MODULE Trace_Bulk -----------------------------
(* Validates recorded lookups in fonts with very large tables, written by the  *)
(* harness or built by the real builder, against the formulas of the tables.   *)
EXTENDS Bulk, Json, IOUtils
VARIABLES run, l, font, cache
Runs == ndJsonDeserialize(IOEnv.TRACE)
E == Runs[run].evs[l]
tvars == <<run, l, font, cache>>
TInit == run \in 1..Len(Runs) /\ l = 1 /\ font = [ng |-> 0] /\ cache = [size |-> 0]
IsEvent(o) == l <= Len(Runs[run].evs) /\ E.op = o /\ E.p = "" /\ l' = l + 1 /\ UNCHANGED run
Has(k) == k \in DOMAIN E
Make == /\ IsEvent("bulk") /\ ~Has("cut") /\ font' = E.d /\ UNCHANGED cache
        /\ E.r.err = "" /\ E.r.same /\ E.r.stable
        /\ E.r.counts = <<E.d.ng, E.d.names.n, E.d.map.n, E.d.ur.n, E.d.gr.n, E.d.kern.n, E.d.vkern.n>>
(* the same with an incomplete or too long end is no font *)
Cut == IsEvent("bulk") /\ Has("cut") /\ E.cut # 0 /\ E.r.err # "" /\ UNCHANGED <<font, cache>>
Px(r) == {r.px[i] : i \in 1..Len(r.px)}
GlyphOK(g, r) == /\ r.adv = Advance(font, g)
                 /\ r.nil = (NumPx(font, g) = 0)
                 /\ Len(r.px) = NumPx(font, g) /\ Px(r) = Image(font, g)
Ask == /\ IsEvent("bask") /\ UNCHANGED <<font, cache>>
       /\ \A i \in 1..Len(E.glyphs) : GlyphOK(E.glyphs[i], E.r.glyphs[i]) = TRUE
       /\ E.r.names = [i \in 1..Len(E.names) |-> FindName(font, E.names[i])]
       /\ \A i \in 1..Len(E.cps) : LET w == FindCode(font, E.cps[i]) IN E.r.cps[i] = w /\ E.r.cached[i] = w /\ E.r.kept[i] = w
       /\ E.r.kern = [i \in 1..Len(E.pairs) |-> FindKern(font.kern, E.pairs[i][1], E.pairs[i][2])]
       /\ E.r.vkern = [i \in 1..Len(E.pairs) |-> FindKern(font.vkern, E.pairs[i][1], E.pairs[i][2])]
       /\ \A i \in 1..Len(E.grules) : (E.r.grules[i] = GlyphRule(font, E.grules[i])) = TRUE
       /\ \A i \in 1..Len(E.urules) : (E.r.urules[i] = RuneRule(E.urules[i])) = TRUE
(* A table filled to the brim by the builder, entries of step bytes: the font   *)
(* builds as long as the table fits, reads back, and one more doesn't build.    *)
Brim == /\ IsEvent("brim") /\ UNCHANGED <<font, cache>>
        /\ E.r.at <= E.limit /\ E.r.at + E.r.step > E.limit
        /\ E.r.over = -1 /\ E.r.parsed /\ E.r.same
(* a cache and passes over it, after drops following a change of the setting *)
CacheNew == /\ IsEvent("bcache") /\ UNCHANGED font
            /\ cache' = [size |-> E.size, recent |-> <<>>, since |-> <<>>, val |-> 0]
Pass == /\ IsEvent("pass") /\ UNCHANGED font
        /\ LET p == <<E.from, E.to>>
               c == IF E.drops > 0 THEN [cache EXCEPT !.since = <<>>, !.val = E.val] ELSE cache
           IN /\ E.r.v = [k \in 1..SizeOf(p) |-> CodeGlyph(font, p[1] + k - 1, c.val)]
              /\ E.r.miss = [k \in 1..SizeOf(p) |-> IF PassHit(c.recent, c.since, p[1] + k - 1, p, c.size) THEN 0 ELSE 1]
              /\ cache' = [c EXCEPT !.recent = AfterPass(@, p, c.size), !.since = Append(@, p)]
Done == l > Len(Runs[run].evs) /\ UNCHANGED tvars
TNext == Make \/ Cut \/ Brim \/ CacheNew \/ Pass \/ Ask \/ Done
=============================================================================
