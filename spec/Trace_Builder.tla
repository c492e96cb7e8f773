---------------------------- MODULE Trace_Builder ---------------------------
(* Validates recorded builder sessions: every operation reports an outcome the *)
(* builder of the specification allows, the getters tell its state after every *)
(* operation, and the fonts that come out of Build say what the builder was    *)
(* told -- in the accessors of the font, and (raw) in its encoding.            *)
EXTENDS Builder, Json, IOUtils
R == INSTANCE Raster WITH Ctrls <- {}, Vals <- {}, Moves <- {}, Alphas <- {}, MaxOps <- 0, s <- <<>>, box <- <<>>, nops <- 0
VARIABLES run, l, b, builtin, built
Runs == ndJsonDeserialize(IOEnv.TRACE)
E == Runs[run].evs[l]
tvars == <<run, l, b, builtin, built>>
TInit == run \in 1..Len(Runs) /\ l = 1 /\ b = New(<<0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 1, 1>>) /\ builtin = {} /\ built = <<>>
IsEvent(o) == l <= Len(Runs[run].evs) /\ E.op = o /\ E.p = "" /\ l' = l + 1 /\ UNCHANGED run
Has(k) == k \in DOMAIN E
Days == {E.r.days[i] : i \in 1..Len(E.r.days)}

(* identifiers are random numbers, fit for telling fonts apart *)
GoodID(bits) == bits \in 22..42
Fresh == /\ IsEvent("b.new") /\ UNCHANGED builtin /\ built' = <<>>
         /\ \E t \in Days : b' = New(E.r.obs.id, t)
         /\ E.r.out = "ok" /\ E.r.obs = Obs(b')
Words == /\ IsEvent("b.words") /\ UNCHANGED <<b, built>>
         /\ builtin' = {E.r.words[i] : i \in 1..Len(E.r.words)}
(* what an operation reports beyond its outcome *)
More(new) == CASE E.op \in {"b.setting", "b.switch"} ->
                    E.r.out = "ok" => E.r.key = (IF E.op = "b.setting" THEN Len(new.settings) ELSE Len(new.switches)) - 1
               [] E.op = "b.fill" -> E.r.n = DoFill(b, E).n
               [] OTHER -> TRUE
Asking == {"b.new", "b.words", "b.obs", "b.colors", "b.sets", "b.build"}
Operation == /\ l <= Len(Runs[run].evs) /\ E.op \notin Asking /\ E.p = "" /\ l' = l + 1 /\ UNCHANGED <<run, builtin, built>>
             /\ \E t \in Days : LET a == Apply(b, E, t) IN
                                /\ E.r.out \in a.out
                                /\ b' = a.b
             /\ E.r.obs = Obs(b') /\ More(b')
Asked(o) == IsEvent(o) /\ UNCHANGED <<b, builtin>> /\ E.r.obs = Obs(b)
Look == Asked("b.obs") /\ UNCHANGED built
Colors == Asked("b.colors") /\ UNCHANGED built /\ E.r.told = [i \in 1..Len(E.ask) |-> ColorsTold(b, E.ask)[i]]
Sets == Asked("b.sets") /\ UNCHANGED built /\ E.r.gsets = SetObs(b.gsets, b.made.gset) /\ E.r.rsets = SetObs(b.rsets, b.made.rset)
(* the encoded font is a font of the format, and decodes to what was told *)
Images(v) == [i \in 1..v.metrics.ng |-> R!RunCode(v.masks[i]).s.img]
Encoded(raw, d, size) == LET p == F!Plain(raw) IN
                         /\ Len(raw) = size
                         /\ F!Accepts(p)
                         /\ LET v == F!View(p) IN Reports(v, Images(v), d, E, size)
Trip(t) == \A k \in DOMAIN t : t[k]
(* all that matters for the font: told the same, the builder builds the same *)
Matter(x) == [x EXCEPT !.kern = {<<@[i].a, @[i].c, PairValue(x, @[i])>> : i \in 1..Len(@)}, !.vkern = {<<@[i].a, @[i].c, PairValue(x, @[i])>> : i \in 1..Len(@)},
                       !.map = SeqSet(@), !.made = 0, !.classes = 0]
Build == /\ Asked("b.build")
         /\ E.r.out \in BuildOutcome(b, builtin)
         /\ E.r.obsKept
         /\ built' = IF E.r.out = "ok" THEN <<Matter(b)>> ELSE built
         /\ E.r.out = "ok" =>
              /\ E.r.again /\ E.r.export /\ E.r.werr /\ E.r.apart /\ E.r.kept /\ Trip(E.r.trip)
              /\ (built = built' => E.r.eq)
              /\ b.noise > 0 => E.r.noise = [i \in 1..b.noise |-> TRUE]
              /\ b.noise = 0 => Says(b, E.r.dump, E, E.r.size) = TRUE
              /\ Has("raw") /\ E.raw => Encoded(E.r.raw, E.r.dump, E.r.size) = TRUE
Done == l > Len(Runs[run].evs) /\ UNCHANGED tvars
TNext == Fresh \/ Words \/ Operation \/ Look \/ Colors \/ Sets \/ Build \/ Done
=============================================================================
