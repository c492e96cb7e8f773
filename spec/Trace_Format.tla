---------------------------- MODULE Trace_Format ----------------------------
(* Validates recorded parses, dumps, exports and lookups of fonts against the  *)
(* format: the verdict on every (edited, damaged) stream, and what the         *)
(* accessors of an accepted font report.                                       *)
EXTENDS Report, Json, IOUtils
F == INSTANCE Format
B == INSTANCE Bounds
R == INSTANCE Raster WITH Ctrls <- {}, Vals <- {}, Moves <- {}, Alphas <- {}, MaxOps <- 0, s <- <<>>, box <- <<>>, nops <- 0
VARIABLES run, l, base, cur, value
Runs == ndJsonDeserialize(IOEnv.TRACE)
E == Runs[run].evs[l]
tvars == <<run, l, base, cur, value>>
None == [ng |-> 0]
TInit == run \in 1..Len(Runs) /\ l = 1 /\ base = F!Plain(<<>>) /\ cur = F!Plain(<<>>) /\ value = <<>>
IsEvent(o) == l <= Len(Runs[run].evs) /\ E.op = o /\ E.p = "" /\ l' = l + 1 /\ UNCHANGED run
Pure(o) == IsEvent(o) /\ UNCHANGED <<base, cur, value>>
Has(k) == k \in DOMAIN E

Base == IsEvent("base") /\ base' = [b |-> E.b, at |-> E.at, n |-> E.n] /\ cur' = base' /\ UNCHANGED value
RECURSIVE Edit(_, _)
Edit(b, es) == IF es = <<>> THEN b
               ELSE LET e == Head(es)
                    IN Edit(SubSeq(b, 1, e.at) \o e.ins \o SubSeq(b, e.at + e.del + 1, Len(b)), Tail(es))
Edited == LET b == IF Has("edits") THEN Edit(base.b, E.edits) ELSE base.b
          IN [b |-> b, at |-> IF base.at > Len(b) THEN Len(b) ELSE base.at, n |-> base.n]
(* Damage to the stream around the data.  A flipped bit in the signature or in *)
(* the parts of the gzip layer that identify or protect the data is an error;  *)
(* elsewhere the checksum decides: either rejected or the very same data.      *)
FlipPos == IF Has("fromend") /\ E.fromend THEN E.r.len - 1 - (E.flip % E.r.len) ELSE (E.flip % E.r.len)
FlipFatal == LET p == FlipPos IN p < 9 \/ p >= E.r.len - 8
Broken == \/ Has("scut") \/ Has("fail") \/ Has("tail") \/ Has("nostat") \/ (Has("grow") /\ E.grow > 32)
          \/ (Has("flip") /\ FlipFatal)
ParseFont == /\ IsEvent("parse") /\ UNCHANGED base
         /\ cur' = Edited /\ value' = <<>>
         /\ LET acc == F!Accepts(cur')
            IN IF Broken THEN ~E.r.ok
               ELSE IF Has("flip") THEN E.r.ok => (E.r.same /\ acc)
               ELSE E.r.ok = acc /\ E.r.same = acc
         /\ E.r.closed = 1 /\ E.r.missing
         /\ E.r.kept     \* fonts parsed before are still what they were

(* the value of the current font, computed once *)
Value == IF value = <<>> THEN <<F!View(cur)>> ELSE value
Images(v) == [i \in 1..v.metrics.ng |-> R!RunCode(v.masks[i]).s.img]
Dump == /\ IsEvent("dump") /\ UNCHANGED <<base, cur>>
        /\ value' = Value
        /\ LET v == value'[1] IN Reports(v, Images(v), E.r, E, F!DLen(cur)) = TRUE
Export == /\ Pure("export")
          /\ E.r = [ok |-> TRUE, sig |-> TRUE, data |-> TRUE, kept |-> TRUE, again |-> TRUE, parse |-> TRUE, same |-> TRUE,
                    dump |-> TRUE, chunks |-> TRUE, werr |-> TRUE]
Names == /\ IsEvent("names") /\ UNCHANGED <<base, cur>> /\ value' = Value
         /\ E.r.n = Len(value'[1].names)
         /\ E.r.v = [i \in 1..Len(E.names) |-> NameOf(value'[1], E.names[i])]
Kerns == /\ IsEvent("kerns") /\ UNCHANGED <<base, cur>> /\ value' = Value
         /\ E.r.n = Len(value'[1].kern) /\ E.r.nv = Len(value'[1].vkern)
         /\ E.r.h = [i \in 1..Len(E.pairs) |-> KernOf(value'[1].kern, E.pairs[i][1], E.pairs[i][2])]
         /\ E.r.v = [i \in 1..Len(E.pairs) |-> KernOf(value'[1].vkern, E.pairs[i][1], E.pairs[i][2])]
Set == /\ IsEvent("set") /\ UNCHANGED <<base, cur>> /\ value' = Value
       /\ E.r = IF E.kind = "rune" THEN RSet(value'[1].rsets[E.i + 1], 4, E.stop) ELSE RSet(value'[1].gsets[E.i + 1], 2, E.stop)
(* glyph ranges as values: valid below a number of glyphs when in order and its last is *)
RangeEv == /\ Pure("range")
           /\ E.r.made = IF E.a <= E.b THEN <<E.a, E.b>> ELSE <<>>
           /\ E.r.ok = (E.a <= E.b /\ E.b < E.max)
           /\ E.r.has = [i \in 1..Len(E.xs) |-> E.a <= E.xs[i] /\ E.xs[i] <= E.b]
Equals == /\ IsEvent("equals") /\ UNCHANGED <<base, cur>> /\ value' = Value
          /\ E.r.u = [i \in 1..Len(value'[1].urules) |-> [j \in 1..Len(value'[1].urules) |-> value'[1].urules[i] = value'[1].urules[j]]]
          /\ E.r.g = [i \in 1..Len(value'[1].grules) |-> [j \in 1..Len(value'[1].grules) |-> value'[1].grules[i] = value'[1].grules[j]]]
(* sessions of questions, within what the font defines and beyond it *)
Probe == /\ IsEvent("probe") /\ UNCHANGED <<base, cur>> /\ value' = Value
         /\ E.r.v = B!Answers(value'[1], E.asks) /\ E.r.kept
Done == l > Len(Runs[run].evs) /\ UNCHANGED tvars
TNext == Base \/ ParseFont \/ Dump \/ Export \/ Names \/ Kerns \/ Set \/ RangeEv \/ Equals \/ Probe \/ Done
=============================================================================
