------------------------------ MODULE Pipeline ------------------------------
(* The whole way from a text to what is drawn: code points are rewritten, each *)
(* result is mapped to a group under the current settings, a glyph is chosen   *)
(* from the group, glyphs are rewritten, and the font tells every glyph's      *)
(* advance and the kerning of neighbours.  Render gives it in one piece, as a  *)
(* function of the text and the current setting values alone.  MC_Pipeline     *)
(* relates it to the chain of streaming machines that users build.             *)
(*                                                                             *)
(* A font is a record of Mapping (nopts, switches, mapping) with its decoded   *)
(* rewriting tables: conds (formulas), u and g (sets of code points, glyphs),  *)
(* and the metrics: adv, and kern, a function from pairs of glyphs.            *)
EXTENDS Rewriter, Mapping
Nowhere == 56789                   \* the glyph that stands for a code point without mapping
Truths(font, vals) == {255} \cup {c \in 0..Len(font.conds) - 1 : Sat(font.conds[c + 1], vals)}
Rewritten(rs, sat, s, sets) == Values(Scan(rs, sat, s, sets).out, s)
(* the glyph for the n-th mapped code point: the choices of a group take turns *)
Chosen(font, cp, vals, n) == LET g == Lookup(font, cp, vals) IN IF g.found THEN g.glyphs[(n % g.size) + 1] ELSE Nowhere
Mapped(font, s, vals, n) == [i \in 1..Len(s) |-> Chosen(font, s[i], vals, n + i - 1)]
(* one piece of text, between breaks *)
Render(font, ur, gr, vals, xs, n) ==
  LET sat == Truths(font, vals)
      chars == Rewritten(ur, sat, xs, font.u)
  IN [chars |-> chars, glyphs |-> Rewritten(gr, sat, TLCEval(Mapped(font, chars, vals, n)), font.g), n |-> n + Len(chars)]
(* several pieces, one after another *)
RECURSIVE Pieces(_, _, _, _, _, _, _)
Pieces(font, ur, gr, vals, ps, n, acc) ==
  IF ps = <<>> THEN [chars |-> acc.chars, glyphs |-> acc.glyphs, n |-> n]
  ELSE LET r == Render(font, ur, gr, vals, Head(ps), n)
       IN Pieces(font, ur, gr, vals, Tail(ps), r.n, [chars |-> acc.chars \o r.chars, glyphs |-> acc.glyphs \o r.glyphs])
Text(font, ur, gr, vals, ps, n) == Pieces(font, ur, gr, vals, ps, n, [chars |-> <<>>, glyphs |-> <<>>])
(* metrics of what is drawn *)
AdvanceOf(font, g) == IF g < Len(font.adv) THEN font.adv[g + 1] ELSE 0
KernOf(pairs, a, b) == LET m == {i \in 1..Len(pairs) : pairs[i][1] = a /\ pairs[i][2] = b}
                       IN IF m = {} THEN 0 ELSE pairs[CHOOSE i \in m : TRUE][3]
Kerns(pairs, gs) == [i \in 1..(IF gs = <<>> THEN 0 ELSE Len(gs) - 1) |-> KernOf(pairs, gs[i], gs[i + 1])]

(* Settings that change within a piece: us and gs tell which conditions hold for the *)
(* matches begun at each position of the code points and of the glyphs (ScanSegs);   *)
(* vs are the values under which each code point was mapped, those not mapped yet    *)
(* being mapped under the current ones.                                              *)
RenderSegs(font, ur, gr, us, gs, vs, vals, xs, n) ==
  LET chars == Values(ScanSegs(ur, us, xs, font.u).out, xs)
      mapped == [i \in 1..Len(chars) |-> Chosen(font, chars[i], IF i <= Len(vs) THEN vs[i] ELSE vals, n + i - 1)]
  IN [chars |-> chars, glyphs |-> Values(ScanSegs(gr, gs, TLCEval(mapped), font.g).out, mapped), n |-> n + Len(chars)]
(* with elements pending, the match begun on the oldest one keeps the conditions it was begun with *)
From(segs, n, pending, sat) == Append(segs, <<n - pending + (IF pending > 0 THEN 1 ELSE 0), sat>>)

-----------------------------------------------------------------------------
(* --- the chain of streaming machines; hu and hg are the conditions for the oldest --- *)
(* --- undecided code point and glyph                                               --- *)
Idle == [acc |-> <<>>, u |-> 0, out |-> <<>>]
NewChain(sat) == [su |-> Idle, sg |-> Idle, n |-> 0, hu |-> sat, hg |-> sat]
(* hands the code points that came out of the first machine on to the second *)
RECURSIVE Handover(_, _, _, _, _)
Handover(font, gr, sat, lookup(_, _), ch) ==
  IF ch.su.out = <<>> THEN ch
  ELSE LET r == FeedMid(gr, ch.hg, sat, ch.sg, lookup(Head(ch.su.out), ch.n), font.g)
       IN Handover(font, gr, sat, lookup, [ch EXCEPT !.su.out = Tail(@), !.n = @ + 1, !.sg = r.st, !.hg = r.hs])
ChainFeed(font, ur, gr, sat, lookup(_, _), ch, x) ==
  LET r == FeedMid(ur, ch.hu, sat, ch.su, x, font.u)
  IN Handover(font, gr, sat, lookup, [ch EXCEPT !.su = r.st, !.hu = r.hs])
ChainFlush(font, ur, gr, sat, lookup(_, _), ch) ==
  LET mid == Handover(font, gr, sat, lookup, [ch EXCEPT !.su = FlushMid(ur, ch.hu, sat, ch.su, font.u)])
  IN [mid EXCEPT !.su = Idle, !.sg = FlushMid(gr, mid.hg, sat, mid.sg, font.g), !.hu = sat, !.hg = sat]
(* the settings changed: truths are evaluated anew, nothing else moves *)
ChainRefresh(sat, ch) == [ch EXCEPT !.hu = IF ch.su.acc = <<>> THEN sat ELSE @, !.hg = IF ch.sg.acc = <<>> THEN sat ELSE @]
=============================================================================
