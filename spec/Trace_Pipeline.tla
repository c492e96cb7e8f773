--------------------------- MODULE Trace_Pipeline ---------------------------
(* Validates recorded uses of whole pipelines: texts drawn with the real       *)
(* testers, mappings, caches and metrics, chained the way a renderer does.     *)
(* cfg.fonts[i]: nopts, switches, mapping, conds, rsets, gsets, urules, grules *)
(* (encoded), adv, kern and vkern (triples).  A pipeline is [f, s, ur, gr, on, *)
(* n, xs, chars, glyphs, us, gs, vs]: its font and settings, its rules, whether *)
(* a sequence is operating, how many code points were mapped, and the input and *)
(* outputs since the last break, with the conditions and values on the way      *)
(* (RenderSegs).                                                                *)
EXTENDS Pipeline, Json, IOUtils
VARIABLES run, l, ft, sets, ps
Runs == ndJsonDeserialize(IOEnv.TRACE)
E == Runs[run].evs[l]
tvars == <<run, l, ft, sets, ps>>
Decoded(f) == [nopts |-> f.nopts, switches |-> f.switches, mapping |-> f.mapping, adv |-> f.adv, kern |-> f.kern, vkern |-> f.vkern,
               u |-> [i \in 1..Len(f.rsets) |-> DecodeSet(f.rsets[i], 4)],
               g |-> [i \in 1..Len(f.gsets) |-> DecodeSet(f.gsets[i], 2)],
               ur |-> [i \in 1..Len(f.urules) |-> DecodeRule(f.urules[i], 4).r],
               gr |-> [i \in 1..Len(f.grules) |-> DecodeRule(f.grules[i], 2).r],
               conds |-> [i \in 1..Len(f.conds) |-> Parse(f.conds[i], Len(f.nopts)).f]]
TInit == /\ run \in 1..Len(Runs) /\ l = 1 /\ sets = <<>> /\ ps = <<>>
         /\ ft = TLCEval([i \in 1..Len(Runs[run].cfg.fonts) |-> TLCEval(Decoded(Runs[run].cfg.fonts[i]))])
IsEvent(o) == l <= Len(Runs[run].evs) /\ E.op = o /\ E.p = "" /\ l' = l + 1 /\ UNCHANGED <<run, ft>>
Open == (IsEvent("open") \/ IsEvent("p.built")) /\ E.r.ok /\ UNCHANGED <<sets, ps>>
SNew == /\ IsEvent("s.new") /\ UNCHANGED ps
        /\ sets' = (E.s :> [i \in 1..Len(ft[E.f + 1].nopts) |-> 0]) @@ sets
        /\ E.r.vals = sets'[E.s]
SSet == IsEvent("s.set") /\ UNCHANGED ps /\ sets' = [sets EXCEPT ![E.s][E.k + 1] = E.v] /\ E.r.vals = sets'[E.s]

P == ps[E.pl]
Font(p) == ft[p.f + 1]
Becomes(p) == ps' = [ps EXCEPT ![E.pl] = p] /\ UNCHANGED sets
Begun(s, f) == <<<<0, TLCEval(Truths(ft[f + 1], sets[s]))>>>>
Clean(p, on, n) == [p EXCEPT !.on = on, !.n = n, !.xs = <<>>, !.chars = <<>>, !.glyphs = <<>>,
                             !.us = Begun(p.s, p.f), !.gs = Begun(p.s, p.f), !.vs = <<>>]
PNew == /\ IsEvent("p.new") /\ E.r.ok /\ UNCHANGED sets
        /\ ps' = (E.pl :> [f |-> E.f, s |-> E.s, on |-> FALSE, n |-> 0, xs |-> <<>>, chars |-> <<>>, glyphs |-> <<>>,
                          us |-> Begun(E.s, E.f), gs |-> Begun(E.s, E.f), vs |-> <<>>,
                          ur |-> [i \in 1..Len(E.urules) |-> ft[E.f + 1].ur[E.urules[i] + 1]],
                          gr |-> [i \in 1..Len(E.grules) |-> ft[E.f + 1].gr[E.grules[i] + 1]]]) @@ ps
PBegin == IsEvent("p.begin") /\ E.r.ok /\ ~P.on /\ Becomes(Clean(P, TRUE, P.n))
(* another settings cache with values of its own *)
PRefresh == /\ IsEvent("p.refresh") /\ E.r.ok /\ E.r.chars = <<>> /\ E.r.glyphs = <<>>
            /\ LET sat == TLCEval(Truths(Font(P), sets[E.s]))
                   pu == E.r.pend[1]
                   pg == E.r.pend[2]
               IN IF P.xs = <<>> THEN pu = 0 /\ pg = 0 /\ Becomes(Clean([P EXCEPT !.s = E.s], P.on, P.n))
                  ELSE /\ pu <= Len(P.xs) /\ pg <= Len(P.chars)
                       /\ Becomes([P EXCEPT !.s = E.s, !.us = From(@, Len(P.xs), pu, sat), !.gs = From(@, Len(P.chars), pg, sat)])
Longer(p) == [p EXCEPT !.chars = @ \o E.r.chars, !.glyphs = @ \o E.r.glyphs, !.vs = @ \o [i \in 1..Len(E.r.chars) |-> sets[p.s]]]
PFeed == IsEvent("p.feed") /\ E.r.ok /\ P.on /\ Becomes(Longer([P EXCEPT !.xs = @ \o E.xs]))
Drawn(p) == LET r == RenderSegs(Font(p), p.ur, p.gr, p.us, p.gs, p.vs, sets[p.s], p.xs, p.n)
            IN r.chars = p.chars /\ r.glyphs = p.glyphs
Metrics(p) == /\ E.r.advs = [i \in 1..Len(p.glyphs) |-> AdvanceOf(Font(p), p.glyphs[i])]
              /\ E.r.kerns = Kerns(Font(p).kern, p.glyphs)
              /\ E.r.vkerns = Kerns(Font(p).vkern, p.glyphs)
Flush(on) == /\ E.r.ok /\ P.on
             /\ LET p == Longer(P)
                IN Drawn(p) /\ Metrics(p) /\ Becomes(Clean(P, on, P.n + Len(p.chars)))
PBreak == IsEvent("p.break") /\ Flush(TRUE)
PFinish == IsEvent("p.finish") /\ Flush(FALSE)
Done == l > Len(Runs[run].evs) /\ UNCHANGED tvars
TNext == Open \/ SNew \/ SSet \/ PNew \/ PBegin \/ PRefresh \/ PFeed \/ PBreak \/ PFinish \/ Done
=============================================================================
