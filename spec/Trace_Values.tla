---------------------------- MODULE Trace_Values ----------------------------
(* Validates recorded operations on parsed fonts, settings caches and mapping  *)
(* caches against Mapping, Cond, SettingsCache and MappingCache.               *)
(* cfg.fonts describes the fonts of the run.                                   *)
EXTENDS Mapping, Json, IOUtils
LRU == INSTANCE MappingCache WITH Cps <- {}, Missing <- {}, Size <- 0, MaxVal <- 0, MaxOps <- 0,
         order <- <<>>, sig <- {}, stored <- <<>>, val <- 0, stale <- FALSE, time <- 0, stamp <- <<>>, nops <- 0, ans <- <<>>
VARIABLES run, l, sets, caches
Runs == ndJsonDeserialize(IOEnv.TRACE)
E == Runs[run].evs[l]
tvars == <<run, l, sets, caches>>
Font(f) == Runs[run].cfg.fonts[f + 1]
FontOf(e) == Font(IF "f" \in DOMAIN e THEN e.f ELSE 0)
TInit == run \in 1..Len(Runs) /\ l = 1 /\ sets = <<>> /\ caches = <<>>
IsEvent(o) == l <= Len(Runs[run].evs) /\ E.op = o /\ E.p = "" /\ l' = l + 1 /\ UNCHANGED run
Pure(o) == IsEvent(o) /\ UNCHANGED <<sets, caches>>

Open == Pure("open") /\ E.r.ok
SNew == /\ IsEvent("s.new") /\ UNCHANGED caches
        /\ E.r.vals = [i \in 1..Len(FontOf(E).nopts) |-> 0]
        /\ sets' = (E.s :> [f |-> FontOf(E), vals |-> E.r.vals]) @@ sets
Vals(s) == sets[s].vals
RECURSIVE Mentions(_, _)
Mentions(fm, k) == IF fm.k = "cmp" THEN fm.a = k \/ (fm.c = 0 /\ fm.b = k)
                   ELSE \E i \in 1..Len(fm.xs) : Mentions(fm.xs[i], k)
SSet == /\ IsEvent("s.set") /\ UNCHANGED caches
        /\ sets' = [sets EXCEPT ![E.s].vals = [@ EXCEPT ![E.k + 1] = E.v]]
        /\ E.r.vals = sets'[E.s].vals
        /\ LET f == sets[E.s].f
           IN /\ (\E i \in 1..Len(f.switches) : \E j \in 1..Len(f.switches[i]) : f.switches[i][j] = E.k) => E.r.ma
              /\ (\E i \in 1..Len(f.conds) : Mentions(Parse(f.conds[i], Len(f.nopts)).f, E.k)) => E.r.ca
SGet == Pure("s.get") /\ (E.k < Len(Vals(E.s)) => E.r.v = Vals(E.s)[E.k + 1])
CaseNow(s, sw) == CaseOf(sets[s].f.switches[sw + 1], sets[s].f.nopts, Vals(s))
CondNow(s, c) == IF Eval(sets[s].f.conds[c + 1], Vals(s)) THEN 1 ELSE 0
SCase == Pure("s.case") /\ (E.r.v = -1 \/ E.r.v = CaseNow(E.s, E.sw))
SCond == Pure("s.cond") /\ (E.r.v = -1 \/ E.r.v = CondNow(E.s, E.c))
SEvalCase == Pure("s.evalcase") /\ E.r.v = CaseNow(E.s, E.sw)
SEvalCond == Pure("s.evalcond") /\ E.r.v = CondNow(E.s, E.c)

EvalConds == /\ Pure("evalconds") /\ E.r.same
             /\ Len(E.r.v) = Len(E.vecs)
             /\ E.vecs # <<>> => LET t == Parse(FontOf(E).conds[E.c + 1], Len(E.vecs[1]))
                                 IN t.ok /\ \A i \in 1..Len(E.vecs) : E.r.v[i] = Sat(t.f, E.vecs[i])
EvalSwitch == Pure("evalswitch") /\ E.r.v = CaseOf(FontOf(E).switches[E.sw + 1], FontOf(E).nopts, E.vals)
Utf8 == (Pure("utf8") \/ Pure("ascii")) /\ E.r = Lookup(FontOf(E), E.cp, E.vals)
Utf8C == Pure("utf8c") /\ E.r = Lookup(FontOf(E), E.cp, Vals(E.s))

CNew == /\ IsEvent("c.new") /\ UNCHANGED sets
        /\ caches' = (E.c :> [f |-> FontOf(E), size |-> E.size, order |-> <<>>, sig |-> {}]) @@ caches
Without(r) == [found |-> r.found, size |-> r.size, flags |-> r.flags, case |-> r.case, glyphs |-> r.glyphs]
CGet == /\ IsEvent("c.get") /\ UNCHANGED sets
        /\ LET c == caches[E.c]
               want == Lookup(c.f, E.cp, Vals(E.s))
               hit == LRU!Has(c.order, E.cp)
               order == LRU!Touch(c.order, E.cp, c.size)
           IN /\ Without(E.r) = want
              /\ IF ~want.found THEN caches' = caches
                 ELSE caches' = [caches EXCEPT ![E.c] = [@ EXCEPT !.order = order,
                                    !.sig = (@ \cup {E.cp}) \cap {order[i] : i \in 1..Len(order)}]]
              \* probes: an entry in the cache answers without evaluating the switch
              /\ E.r.miss >= 0 /\ want.found =>
                   IF hit THEN E.cp \in c.sig => E.r.miss = 0 ELSE E.r.miss = 1
CDrop == IsEvent("c.drop") /\ UNCHANGED sets /\ caches' = [caches EXCEPT ![E.c].sig = {}]
CReset == IsEvent("c.reset") /\ UNCHANGED sets
          /\ caches' = [caches EXCEPT ![E.c] = [@ EXCEPT !.f = FontOf(E), !.order = <<>>, !.sig = {}]]
Done == l > Len(Runs[run].evs) /\ UNCHANGED tvars
TNext == \/ Open \/ SNew \/ SSet \/ SGet \/ SCase \/ SCond \/ SEvalCase \/ SEvalCond
         \/ EvalConds \/ EvalSwitch \/ Utf8 \/ Utf8C \/ CNew \/ CGet \/ CDrop \/ CReset \/ Done
=============================================================================
