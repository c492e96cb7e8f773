------------------------------- MODULE Report -------------------------------
(* What the accessors of a font report, for a font that is the value v (the    *)
(* record of Format!View) and whose glyph masks are the images imgs.  args     *)
(* says what the font was asked: names, code points with setting values, pairs *)
EXTENDS Mapping
RECURSIVE SeqSum(_)
SeqSum(s) == IF s = <<>> THEN 0 ELSE Head(s) + SeqSum(Tail(s))

(* --- lookups: total functions over the tables --- *)
Missing == 56789
NameOf(v, name) == LET hits == {i \in 1..Len(v.names) : v.names[i][1] = name}
                   IN IF hits = {} THEN Missing ELSE v.names[CHOOSE i \in hits : TRUE][2]
KernOf(ks, a, b) == LET hits == {i \in 1..Len(ks) : ks[i][1] = a /\ ks[i][2] = b}
                    IN IF hits = {} THEN 0 ELSE ks[CHOOSE i \in hits : TRUE][3]

(* --- colors: dyes first, then palettes, after the transparent color --- *)
RColors(cs) == [i \in 1..Len(cs) |-> [key |-> i - 1, n |-> Len(cs[i].colors), name |-> cs[i].name, colors |-> cs[i].colors]]
Flat(cs) == Concat([i \in 1..Len(cs) |-> cs[i].colors])
NumColors(cs) == SeqSum([i \in 1..Len(cs) |-> Len(cs[i].colors)])
GoPalette(v) == <<<<0, 0, 0, 0>>>> \o [i \in 1..NumColors(v.dyes) |-> LET a == Flat(v.dyes)[i][1] IN <<a, a, a, a>>] \o Flat(v.palettes)

(* --- encoded sets and rules --- *)
L16(d, i) == d[i] + 256 * d[i + 1]
L32(d, i) == d[i] + 256 * d[i + 1] + 65536 * d[i + 2] + 16777216 * (IF d[i + 3] >= 128 THEN d[i + 3] - 256 ELSE d[i + 3])
SetRanges(d, w) == [i \in 1..d[1] |-> LET p == 2 + (i - 1) * (w + 1)
                                          a == IF w = 4 THEN L32(d, p) ELSE L16(d, p)
                                      IN <<a, a + d[p + w]>>]
SetList(d, w) == LET p == 2 + d[1] * (w + 1)
                 IN [i \in 1..d[p] |-> IF w = 4 THEN L32(d, p + 1 + 4 * (i - 1)) ELSE L16(d, p + 1 + 2 * (i - 1))]
(* iterating with a callback failing at its stop-th call *)
UpTo(s, stop) == IF stop > 0 /\ stop < Len(s) THEN SubSeq(s, 1, stop) ELSE s
Stopped(s, stop) == stop > 0 /\ stop <= Len(s)
RSet(d, w, stop) == LET rs == SetRanges(d, w)
                        ls == SetList(d, w)
                    IN [data |-> d, ranges |-> UpTo(rs, stop), list |-> UpTo(ls, stop),
                        errs |-> <<Stopped(rs, stop), Stopped(ls, stop)>>, ok |-> <<~Stopped(rs, stop), ~Stopped(ls, stop)>>]
RRule(d, w) == [data |-> d, lens |-> <<d[1], d[2], d[3], d[4], d[2] + d[3] + d[4], d[5]>>,
                out |-> [i \in 1..d[5] |-> IF w = 4 THEN L32(d, 6 + 4 * (i - 1)) ELSE L16(d, 6 + 2 * (i - 1))]]

RHeader(v) == v.header
RMetrics(v, size) == LET r == v.metrics.rest
               IN [ng |-> v.metrics.ng, vert |-> v.metrics.vert, rest |-> r, mono |-> r[1] # 0,
                   line |-> r[2] + r[4] + r[10], vline |-> r[11] + r[12], size |-> size]
RColor(v) == [dyes |-> RColors(v.dyes), palettes |-> RColors(v.palettes), gopal |-> GoPalette(v),
              counts |-> <<Len(v.dyes), NumColors(v.dyes), Len(v.palettes), NumColors(v.palettes), NumColors(v.dyes) + NumColors(v.palettes)>>]
(* words beyond those of the font are the predefined ones, whatever they are: pairs <<predefined, word>> *)
RWords(v, predef) == \A i \in 0..5 : LET k == i * 51 IN predef[2 * i + 2] = IF k < Len(v.words) THEN v.words[k + 1] ELSE predef[2 * i + 1]
RSettings(v) == [i \in 1..Len(v.settings) |-> [key |-> i - 1, name |-> v.settings[i].name]]
OptionsOK(v, got) == \A i \in 1..Len(v.settings) :
                       /\ Len(got[i].opts) = Len(v.settings[i].opts)
                       /\ \A k \in 1..Len(v.settings[i].opts) :
                            LET w == v.settings[i].opts[k] IN w < Len(v.words) => got[i].opts[k] = v.words[w + 1]
Tables(v) == [nopts |-> [i \in 1..Len(v.settings) |-> Len(v.settings[i].opts)], switches |-> v.switches, mapping |-> v.mapping, conds |-> v.conds]
Pixels(r) == {r.px[i] : i \in 1..Len(r.px)}
SameImage(r, img) == /\ r.nil = (img = {})
                     /\ Len(r.px) = Cardinality(img)
                     /\ Pixels(r) = img

HeaderOK(v, d) == d.header = RHeader(v)
MetricsOK(v, d, size) == d.metrics = RMetrics(v, size)
ColorsOK(v, d) == d.colors = RColor(v)
GlyphsOK(v, imgs, d, args) ==
  /\ d.glyphs.count = v.metrics.ng
  /\ d.glyphs.named = Len(v.names)
  /\ d.glyphs.names = [i \in 1..Len(args.names) |-> NameOf(v, args.names[i])]
  /\ d.glyphs.placements = v.placements
  /\ d.glyphs.advances = [i \in 1..v.metrics.ng |-> v.placements[i][1]]
  /\ Len(d.glyphs.masks) = v.metrics.ng
  /\ \A i \in 1..v.metrics.ng : SameImage(d.glyphs.masks[i], imgs[i])
SettingsOK(v, d) ==
  /\ d.settings.count = Len(v.settings) /\ d.settings.numwords = Len(v.words)
  /\ d.settings.words = v.words /\ RWords(v, d.settings.predef)
  /\ [i \in 1..Len(d.settings.list) |-> [key |-> d.settings.list[i].key, name |-> d.settings.list[i].name]] = RSettings(v)
  /\ OptionsOK(v, d.settings.list)
  /\ d.settings.beyond = 0
MappingOK(v, d, args) ==
  /\ d.mapping.switches = Len(v.switches) /\ d.mapping.entries = Len(v.mapping)
  /\ LET t == Tables(v)
     IN d.mapping.lookups = [i \in 1..Len(args.lookups) |-> Lookup(t, args.lookups[i].cp, args.lookups[i].vals)]
RewritesOK(v, d) ==
  /\ d.rewrites.nconds = Len(v.conds)
  /\ d.rewrites.rsets = [i \in 1..Len(v.rsets) |-> RSet(v.rsets[i], 4, -1)]
  /\ d.rewrites.gsets = [i \in 1..Len(v.gsets) |-> RSet(v.gsets[i], 2, -1)]
  /\ d.rewrites.urules = [i \in 1..Len(v.urules) |-> RRule(v.urules[i], 4)]
  /\ d.rewrites.grules = [i \in 1..Len(v.grules) |-> RRule(v.grules[i], 2)]
KernOK(v, d, args) ==
  /\ d.kern.n = Len(v.kern) /\ d.kern.nv = Len(v.vkern)
  /\ d.kern.h = [i \in 1..Len(args.kerns) |-> KernOf(v.kern, args.kerns[i][1], args.kerns[i][2])]
  /\ d.kern.v = [i \in 1..Len(args.kerns) |-> KernOf(v.vkern, args.kerns[i][1], args.kerns[i][2])]
Reports(v, imgs, d, args, size) ==
  /\ HeaderOK(v, d) /\ MetricsOK(v, d, size) /\ ColorsOK(v, d) /\ GlyphsOK(v, imgs, d, args)
  /\ SettingsOK(v, d) /\ MappingOK(v, d, args) /\ RewritesOK(v, d) /\ KernOK(v, d, args) /\ d.valid
=============================================================================
