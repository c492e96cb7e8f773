--------------------------- MODULE Trace_Rewriter ---------------------------
(* Validates recorded operations on rewrite testers (glyphs and code points).  *)
(* cfg.fonts[i]: nopts, conds, gsets, rsets, grules, urules (encoded).         *)
(* A tester is [w, rules, on, dirty, cv, inp, out, hist, pend]: element width, *)
(* its rules in order with their encodings, whether a sequence is operating,   *)
(* whether rules changed since the last successful compilation, the possible   *)
(* truths of the conditions, the input and output since the last break, and the          *)
(* observations <<input length, output length, pending>> made meanwhile, and    *)
(* the refreshes made with elements pending (mid).                             *)
EXTENDS Rewriter, Json, IOUtils
VARIABLES run, l, ft, sets, ts
Runs == ndJsonDeserialize(IOEnv.TRACE)
E == Runs[run].evs[l]
tvars == <<run, l, ft, sets, ts>>
FontTable(f) == [g |-> [i \in 1..Len(f.gsets) |-> DecodeSet(f.gsets[i], 2)],
                 u |-> [i \in 1..Len(f.rsets) |-> DecodeSet(f.rsets[i], 4)],
                 conds |-> [i \in 1..Len(f.conds) |-> Parse(f.conds[i], Len(f.nopts)).f]]
TInit == /\ run \in 1..Len(Runs) /\ l = 1 /\ sets = <<>> /\ ts = <<>>
         /\ ft = [i \in 1..Len(Runs[run].cfg.fonts) |-> FontTable(Runs[run].cfg.fonts[i])]
IsEvent(o) == l <= Len(Runs[run].evs) /\ E.op = o /\ E.p = "" /\ l' = l + 1 /\ UNCHANGED <<run, ft>>
Fi(e) == IF "f" \in DOMAIN e THEN e.f + 1 ELSE 1
FontCfg(e) == Runs[run].cfg.fonts[Fi(e)]

Open == IsEvent("open") /\ E.r.ok /\ UNCHANGED <<sets, ts>>
SNew == /\ IsEvent("s.new") /\ UNCHANGED ts
        /\ sets' = (E.s :> [i \in 1..Len(FontCfg(E).nopts) |-> 0]) @@ sets
        /\ E.r.vals = sets'[E.s]
SSet == IsEvent("s.set") /\ UNCHANGED ts /\ sets' = [sets EXCEPT ![E.s][E.k + 1] = E.v] /\ E.r.vals = sets'[E.s]

(* --- testers --- *)
T == ts[E.t]
Obs(t) == E.r.n = Len(t.rules) /\ E.r.on = t.on /\ E.r.pend = t.pend
NoOut == E.r.out = <<>>
(* the call must be refused, by panicking, and must not change anything *)
RefusedAsIs == E.r.refused /\ NoOut /\ Obs(T) /\ UNCHANGED <<sets, ts>>
Becomes(t) == ~E.r.refused /\ Obs(t) /\ ts' = [ts EXCEPT ![E.t] = t] /\ UNCHANGED sets

TNew == /\ IsEvent("t.new") /\ UNCHANGED sets
        /\ ts' = (E.t :> [w |-> IF E.kind = "g" THEN 2 ELSE 4, rules |-> <<>>, on |-> FALSE, dirty |-> FALSE, cvs |-> {<<>>},
                          inp |-> <<>>, out |-> <<>>, hist |-> <<>>, pend |-> 0, mid |-> <<>>]) @@ ts
        /\ E.r.n = 0 /\ ~E.r.on /\ E.r.pend = 0 /\ E.r.ok
RuleData == IF "data" \in DOMAIN E THEN E.data
            ELSE IF T.w = 2 THEN FontCfg(E).grules[E.rule + 1] ELSE FontCfg(E).urules[E.rule + 1]
TAdd == /\ IsEvent("t.add")
        /\ IF T.on THEN RefusedAsIs
           ELSE LET d == RuleData
                    rd == DecodeRule(d, T.w)
                IN IF Len(d) < MinRuleLen(T.w) \/ Len(T.rules) >= 254
                   THEN ~E.r.ok /\ NoOut /\ Becomes(T)
                   ELSE E.r.ok /\ NoOut /\ Becomes([T EXCEPT !.rules = Append(@, [d |-> d, st |-> rd.st, r |-> rd.r]), !.dirty = TRUE])
DeleteAt(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
TDel == /\ IsEvent("t.del")
        /\ IF T.on THEN RefusedAsIs
           ELSE LET d == RuleData
                    ks == {k \in 1..Len(T.rules) : T.rules[k].d = d}
                IN /\ NoOut /\ E.r.ok = (ks # {})
                   /\ Becomes(IF ks = {} THEN T ELSE [T EXCEPT !.rules = DeleteAt(@, MinOf(ks)), !.dirty = TRUE])
TDelAll == /\ IsEvent("t.delall")
           /\ IF T.on THEN RefusedAsIs ELSE NoOut /\ Becomes([T EXCEPT !.rules = <<>>, !.dirty = FALSE, !.cvs = {<<>>}])

(* compilation *)
Conds(t) == {t.rules[i].r.cond : i \in 1..Len(t.rules)} \ {255}
HasEnv == "f" \in DOMAIN E /\ "s" \in DOMAIN E
Known(c) == HasEnv /\ c < Len(ft[Fi(E)].conds)
Truth(c) == Sat(ft[Fi(E)].conds[c + 1], sets[E.s])
NumSets(t) == IF ~("f" \in DOMAIN E) THEN 0 ELSE IF t.w = 2 THEN Len(ft[Fi(E)].g) ELSE Len(ft[Fi(E)].u)
RuleStatus(t, rl) == IF rl.st = "bad" THEN "bad"
                     ELSE IF rl.r.cond # 255 /\ ~Known(rl.r.cond) THEN "bad"
                     ELSE IF \E i \in 1..Len(rl.r.els) : rl.r.els[i].set /\ rl.r.els[i].v >= NumSets(t) THEN "bad"
                     ELSE rl.st
AnyBad(t) == \E i \in 1..Len(t.rules) : RuleStatus(t, t.rules[i]) = "bad"
AnyLenient(t) == \E i \in 1..Len(t.rules) : t.rules[i].st = "lenient"
(* Tables so large that the compiler may run out of states or transitions, 254 each.  One *)
(* rule is a chain of states, rules without sets are at most a chain for each; otherwise  *)
(* states may have to be split, and the limit is only counted on as far as it's surely    *)
(* not reached.                                                                           *)
Segments(e, ss) == IF ~e.set \/ e.v >= Len(ss) THEN 1 ELSE Len(ss[e.v + 1].ranges) + Len(ss[e.v + 1].list)
RECURSIVE RuleWeight(_, _, _)
RuleWeight(els, i, ss) == IF i > Len(els) THEN 0 ELSE Segments(els[i], ss) + RuleWeight(els, i + 1, ss)
RECURSIVE Weight(_, _, _)
Weight(rs, i, ss) == IF i > Len(rs) THEN 0 ELSE RuleWeight(rs[i].r.els, 1, ss) + Weight(rs, i + 1, ss)
SetsFor(t) == IF ~("f" \in DOMAIN E) THEN <<>> ELSE IF t.w = 2 THEN ft[Fi(E)].g ELSE ft[Fi(E)].u
Apart(s) == /\ \A i, j \in 1..Len(s.ranges) : i < j => s.ranges[i][2] < s.ranges[j][1] \/ s.ranges[j][2] < s.ranges[i][1]
            /\ \A i \in 1..Len(s.list) : \A j \in 1..Len(s.ranges) : ~(s.ranges[j][1] <= s.list[i] /\ s.list[i] <= s.ranges[j][2])
RECURSIVE Chains(_, _)
Chains(rs, i) == IF i > Len(rs) THEN 1 ELSE Len(rs[i].r.els) - 1 + Chains(rs, i + 1)
Fits(e, ss) == LET w == Segments(e, ss) IN w <= 127 \/ (w <= 254 /\ Apart(ss[e.v + 1]))
Big(t) == LET ss == SetsFor(t)
              single == \A i \in 1..Len(t.rules) : \A j \in 1..Len(t.rules[i].r.els) : ~t.rules[i].r.els[j].set
          IN IF Len(t.rules) = 1 \/ single
             THEN Chains(t.rules, 1) > 253 \/ \E i \in 1..Len(t.rules) : \E j \in 1..Len(t.rules[i].r.els) : ~Fits(t.rules[i].r.els[j], ss)
             ELSE Weight(t.rules, 1, ss) > 60
(* conditions are evaluated when compiled or refreshed; without a refresh after *)
(* a change of the settings both the old and the new truth are acceptable      *)
NewCvs(t) == LET now == [c \in Conds(t) |-> Truth(c)]
                 other(g) == {c \in Conds(t) \cap DOMAIN g : g[c] # now[c]}
             IN UNION {{[c \in Conds(t) |-> IF c \in S THEN ~now[c] ELSE now[c]] : S \in SUBSET other(g)} : g \in t.cvs}
Started(t, on) == [t EXCEPT !.on = on, !.inp = <<>>, !.out = <<>>, !.hist = <<>>, !.pend = 0, !.mid = <<>>]
Compile(on) == /\ NoOut
               /\ \/ E.r.ok /\ ~T.dirty /\ Becomes(Started(T, on))
                  \/ /\ E.r.ok /\ T.dirty /\ ~AnyBad(T)
                     /\ Becomes([Started(T, on) EXCEPT !.dirty = FALSE, !.cvs = NewCvs(T)])
                  \/ /\ ~E.r.ok /\ T.dirty /\ (AnyBad(T) \/ AnyLenient(T) \/ (Big(T) /\ E.r.lim))
                     /\ Becomes(T)
TBegin == IsEvent("t.begin") /\ (IF T.on THEN RefusedAsIs ELSE Compile(TRUE))
TResync == IsEvent("t.resync") /\ (IF T.on THEN RefusedAsIs ELSE Compile(FALSE))
(* With elements pending, a decision has begun on the oldest one: new truths are *)
(* used from the next decision on.                                              *)
TRefresh == /\ IsEvent("t.refresh") /\ NoOut
            /\ LET now == [c \in {c \in Conds(T) : Known(c)} |-> Truth(c)]
                   cvs == {now @@ f : f \in T.cvs}
               IN IF T.on /\ T.pend > 0 THEN Becomes([T EXCEPT !.mid = Append(@, <<Len(T.inp) - T.pend + 1, now>>)])
                  ELSE IF T.on THEN Becomes([Started(T, TRUE) EXCEPT !.cvs = cvs]) ELSE Becomes([T EXCEPT !.cvs = cvs])

(* sequences *)
Zilch(x) == T.w = 2 /\ x = 56790
ValidIn(x) == IF T.w = 2 THEN x <= 56789 ELSE x >= 0 /\ x <= 1114111 /\ ~(x >= 55296 /\ x <= 57343) /\ x # 65533
Rs(t) == [i \in 1..Len(t.rules) |-> t.rules[i].r]
SatOf(f) == {255} \cup {c \in DOMAIN f : f[c]}
TFeed == /\ IsEvent("t.feed")
         /\ IF ~T.on THEN RefusedAsIs
            ELSE LET ok == SelectSeq(E.xs, ValidIn)
                     inp == T.inp \o ok
                     out == T.out \o E.r.out
                     n == Len(inp)
                 IN /\ E.r.ok = (\A i \in 1..Len(E.xs) : ValidIn(E.xs[i]) \/ Zilch(E.xs[i]))
                    /\ E.r.pend <= n
                    /\ Becomes([T EXCEPT !.inp = inp, !.out = out, !.pend = E.r.pend, !.hist = Append(@, <<n, Len(out), E.r.pend>>)])
(* flushing: everything that came out must be the reference output *)
FontSets == IF "fx" \in DOMAIN Runs[run].cfg THEN ft[Runs[run].cfg.fx[ToString(E.t)] + 1] ELSE ft[1]
RECURSIVE Overlaid(_, _, _)
Overlaid(f, mid, k) == IF k = 0 THEN f ELSE mid[k][2] @@ Overlaid(f, mid, k - 1)
SegsOf(t, f) == [k \in 1..Len(t.mid) + 1 |-> <<IF k = 1 THEN 0 ELSE t.mid[k - 1][1], SatOf(Overlaid(f, t.mid, k - 1))>>]
Agrees(t, rs, segs, ss) ==
  LET ref == ScanSegs(rs, segs, t.inp, ss)
  IN /\ t.out \o E.r.out = Values(ref.out, t.inp)
     /\ \A i \in 1..Len(t.hist) :
          LET h == t.hist[i]
          IN /\ \E b \in 1..Len(ref.bs) : ref.bs[b][1] = h[1] - h[3] /\ ref.bs[b][2] = h[2]
             \* an element is held back only while some rule could still match
             /\ h[3] > 0 => Viable(rs, SatAt(segs, h[1] - h[3]), SubSeq(t.inp, 1, h[1]), h[1] - h[3], ss)
Flush(on) == /\ E.r.ok
             /\ LET t == T
                    ss == IF t.w = 2 THEN FontSets.g ELSE FontSets.u
                    rs == Rs(t)
                    cvs == {f \in t.cvs : Agrees(t, rs, TLCEval(SegsOf(t, f)), ss)}
                IN cvs # {} /\ Becomes([Started(t, on) EXCEPT !.cvs = {Overlaid(f, t.mid, Len(t.mid)) : f \in cvs}])
TBreak == IsEvent("t.break") /\ (IF ~T.on THEN RefusedAsIs ELSE Flush(TRUE))
TFinish == IsEvent("t.finish") /\ (IF ~T.on THEN RefusedAsIs ELSE Flush(FALSE))
Done == l > Len(Runs[run].evs) /\ UNCHANGED tvars
TNext == \/ Open \/ SNew \/ SSet \/ TNew \/ TAdd \/ TDel \/ TDelAll \/ TBegin \/ TResync \/ TRefresh
         \/ TFeed \/ TBreak \/ TFinish \/ Done
=============================================================================
