---------------------------- MODULE MC_Pipeline -----------------------------
(* A user draws texts with a font: settings change at any time, decisions      *)
(* (switch cases, truths of conditions) are remembered until a setting changes,*)
(* and the text goes through the chain of streaming machines.  Whatever has    *)
(* happened before, flushing the chain gives Render of the text since the last *)
(* flush under the current settings, or RenderSegs if they changed on the way. *)
EXTENDS Pipeline, Json
CONSTANTS Alphabet, MaxIn, MaxOps, USets, GSets
E1(x) == [set |-> FALSE, v |-> x]
S1(x) == [set |-> TRUE, v |-> x]
R(c, h, b, t, o, e) == [cond |-> c, head |-> h, body |-> b, tail |-> t, out |-> o, els |-> e]
(* setting 0 chooses the case of the mapping switch and decides the condition *)
Font == [nopts |-> <<2>>, switches |-> <<<<0>>>>,
         mapping |-> <<<<1, EncEntry(0, <<[glyphs |-> <<1>>, flags |-> 0, range |-> FALSE], [glyphs |-> <<2, 3>>, flags |-> 0, range |-> FALSE]>>)>>,
                       <<2, <<255, 2, 0>>>>,
                       <<3, EncEntry(254, <<[glyphs |-> <<3, 4>>, flags |-> 0, range |-> TRUE]>>)>>>>,
         conds |-> <<Cmp(0, 0, 1, 1)>>,
         u |-> <<[ranges |-> <<<<1, 2>>>>, list |-> <<>>]>>,
         g |-> <<[ranges |-> <<<<2, 3>>>>, list |-> <<>>]>>]
UCatalog == <<<<>>,
  <<R(255, 0, 2, 0, <<3>>, <<E1(1), E1(2)>>), R(0, 1, 1, 0, <<1>>, <<E1(2), S1(0)>>)>>,
  <<R(0, 0, 1, 0, <<2>>, <<E1(1)>>), R(255, 0, 1, 1, <<3>>, <<S1(0), E1(1)>>)>>,
  <<R(255, 1, 1, 1, <<9>>, <<S1(0), E1(2), S1(0)>>)>>>>
GCatalog == <<<<>>,
  <<R(255, 0, 2, 0, <<5>>, <<E1(1), E1(2)>>), R(0, 1, 1, 0, <<6>>, <<S1(0), E1(3)>>)>>,
  <<R(0, 0, 1, 1, <<7>>, <<S1(0), S1(0)>>), R(255, 0, 1, 0, <<1>>, <<E1(4)>>)>>>>
VARIABLES ui, gi, vals, kase, truth, ch, xs, start, nops, last, us, gs, vs
vars == <<ui, gi, vals, kase, truth, ch, xs, start, nops, last, us, gs, vs>>
Ur == UCatalog[ui]
Gr == GCatalog[gi]
Init == /\ ui \in USets /\ gi \in GSets /\ vals \in {<<0>>, <<1>>} /\ kase = -1 /\ truth = Truths(Font, vals)
        /\ ch = NewChain(truth) /\ xs = <<>> /\ start = 0 /\ nops = 0 /\ last = <<>>
        /\ us = <<<<0, truth>>>> /\ gs = us /\ vs = <<>>
(* the lookup that goes through the remembered case, if there is one *)
Cached(cp, n) == IF cp # 1 THEN Chosen(Font, cp, vals, n)
                 ELSE LET k == IF kase = -1 THEN CaseOf(<<0>>, Font.nopts, vals) ELSE kase
                          g == NthGroup(Entry(Font, 1)[2], 2, k)
                      IN g.glyphs[(n % g.size) + 1]
Touched(c1, c2) == IF c2.n > c1.n /\ kase = -1 THEN CaseOf(<<0>>, Font.nopts, vals) ELSE kase
Op == nops < MaxOps /\ nops' = nops + 1
Feed == /\ Op /\ Len(xs) < MaxIn /\ \E x \in Alphabet : xs' = Append(xs, x) /\ ch' = ChainFeed(Font, Ur, Gr, truth, Cached, ch, x)
        /\ vs' = vs \o [i \in 1..ch'.n - ch.n |-> vals]
        /\ kase' = Touched(ch, ch') /\ last' = <<>> /\ UNCHANGED <<ui, gi, vals, truth, start, us, gs>>
Flush == /\ Op /\ xs # <<>>
         /\ LET c == ChainFlush(Font, Ur, Gr, truth, Cached, ch)
            IN /\ last' = <<xs, start, c.sg.out, c.n, us, gs, vs>> /\ ch' = [c EXCEPT !.sg = Idle] /\ start' = c.n /\ kase' = Touched(ch, c)
         /\ xs' = <<>> /\ us' = <<<<0, truth>>>> /\ gs' = us' /\ vs' = <<>> /\ UNCHANGED <<ui, gi, vals, truth>>
(* the settings change, with a text under way or between texts: the truths are refreshed with them *)
Change == /\ Op /\ vals' = <<1 - vals[1]>> /\ kase' = -1 /\ truth' = Truths(Font, vals') /\ last' = <<>>
          /\ ch' = ChainRefresh(truth', ch)
          /\ IF xs = <<>> THEN us' = <<<<0, truth'>>>> /\ gs' = us'
             ELSE us' = From(us, Len(xs), Len(ch.su.acc), truth') /\ gs' = From(gs, Len(vs), Len(ch.sg.acc), truth')
          /\ UNCHANGED <<ui, gi, xs, start, vs>>
Next == Feed \/ Flush \/ Change
Composed == last # <<>> => LET r == RenderSegs(Font, Ur, Gr, last[5], last[6], last[7], vals, last[1], last[2]) IN last[3] = r.glyphs /\ last[4] = r.n
(* without changes on the way, the text is drawn as the current settings say *)
Composed1 == (last # <<>> /\ Len(last[5]) = 1) =>
               LET r == Render(Font, Ur, Gr, vals, last[1], last[2]) IN last[3] = r.glyphs /\ last[4] = r.n
(* at every moment: what would come out if the text ended now *)
Always == xs # <<>> => ChainFlush(Font, Ur, Gr, truth, Cached, ch).sg.out = RenderSegs(Font, Ur, Gr, us, gs, vs, vals, xs, start).glyphs
(* nothing is invented: without rules, one glyph for every code point *)
Plain == (last # <<>> /\ Len(last[5]) = 1 /\ ui = 1 /\ gi = 1) => last[3] = Mapped(Font, last[1], vals, last[2])
(* a code point without mapping never becomes a glyph of the font *)
Unmapped == (last # <<>> /\ Len(last[5]) = 1 /\ gi = 1) => LET chars == Render(Font, Ur, Gr, vals, last[1], last[2]).chars
                                       IN \A i \in 1..Len(chars) : ~HasEntry(Font, chars[i]) <=> last[3][i] = Nowhere
Emit == (last # <<>> /\ Len(last[5]) = 1 /\ nops >= MaxOps - 1) => PrintT("@@" \o ToJson([u |-> ui, g |-> gi, v |-> vals[1], xs |-> last[1]]))
=============================================================================
