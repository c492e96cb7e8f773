------------------------------- MODULE Format -------------------------------
(* The (decompressed) font format, version 2.                                  *)
(*                                                                             *)
(* Data is a record [b, at, n]: the bytes b with n zero bytes inserted after   *)
(* the first at bytes (so that very large fonts can be written down).          *)
(*                                                                             *)
(* The parser walks the sections; its state is a record [sec, pos, st, offs,   *)
(* ng, vert, ns, colors]: the next section, the bytes consumed, "run", "bad"   *)
(* or "ok", the offsets at which the sections began, and what later sections   *)
(* need: number of glyphs, vertical layout, number of settings, colors used.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

MaxSize == 33554432
Plain(bytes) == [b |-> bytes, at |-> 0, n |-> 0]
DLen(d) == Len(d.b) + d.n
At(d, i) == IF d.n = 0 THEN d.b[i + 1]        \* i counts from 0
            ELSE IF i < d.at THEN d.b[i + 1] ELSE IF i < d.at + d.n THEN 0 ELSE d.b[i - d.n + 1]
U16(d, i) == At(d, i) + 256 * At(d, i + 1)
U24(d, i) == At(d, i) + 256 * (At(d, i + 1) + 256 * At(d, i + 2))
(* code points: 32 bits, negative from 2^31 on *)
I32(d, i) == U24(d, i) + 16777216 * (IF At(d, i + 3) >= 128 THEN At(d, i + 3) - 256 ELSE At(d, i + 3))
I8(v) == IF v >= 128 THEN v - 256 ELSE v
UN(d, i, w) == IF w = 1 THEN At(d, i) ELSE IF w = 2 THEN U16(d, i) ELSE U24(d, i)
Bytes(d, i, n) == [k \in 1..n |-> At(d, i + k - 1)]

(* font IDs must not look like they had been typed in by hand: the pairs of     *)
(* neighbouring bits k, k+1, for k in 0..31, have to be spread over the four    *)
(* patterns (the code shifts by one bit for every pair it looks at, so the      *)
(* higher bits do not take part)                                               *)
Bit(d, i, k) == (At(d, i + k \div 8) \div (2 ^ (k % 8))) % 2
PatCount(d, i, p) == Cardinality({k \in 0..31 : Bit(d, i, k) + 2 * Bit(d, i, k + 1) = p})
AbsV(x) == IF x < 0 THEN -x ELSE x
Spread(d, i) == AbsV(PatCount(d, i, 0) - 8) + AbsV(PatCount(d, i, 1) - 8)
              + AbsV(PatCount(d, i, 2) - 8) + AbsV(PatCount(d, i, 3) - 8)
GoodID(d, i) == Spread(d, i) <= 35

Sections == <<"fixed", "name", "family", "author", "about", "metrics", "dyes", "palettes", "names", "masks",
              "words", "settings", "switches", "mapping", "conds", "rsets", "gsets", "urules", "grules", "kern", "vkern">>
Start == [sec |-> 1, pos |-> 0, st |-> "run", offs |-> <<>>, ng |-> 0, vert |-> FALSE, ns |-> 0, colors |-> 0]
Bad(s) == [s EXCEPT !.st = "bad"]
Has(d, p, n) == p + n <= DLen(d)

(* A table of n chunks: count (cw bytes), pre(n) bytes, end offsets (ew bytes  *)
(* each) and the chunks themselves; only the last end offset, the total length *)
(* of the chunks, is checked: it lies between lo(n) and hi(n).                 *)
NoTable == [ok |-> FALSE, n |-> 0, total |-> 0, next |-> 0]
Table(d, p, cw, pre, ew, lo(_), hi(_)) ==
  IF ~Has(d, p, cw) THEN NoTable ELSE
  LET n == UN(d, p, cw)
      e == p + cw + n * pre
  IN IF n = 0 THEN [ok |-> TRUE, n |-> 0, total |-> 0, next |-> p + cw]
     ELSE IF ~Has(d, e, n * ew) THEN NoTable
     ELSE LET total == UN(d, e + (n - 1) * ew, ew)
              next == e + n * ew + total
          IN [ok |-> lo(n) <= total /\ total <= hi(n) /\ next <= DLen(d), n |-> n, total |-> total, next |-> next]
NoLimit(n) == 16777216
Advance(s, p) == [s EXCEPT !.pos = p, !.sec = @ + 1, !.offs = Append(@, s.pos)]
AfterTable(s, t) == IF t.ok THEN Advance(s, t.next) ELSE Bad(s)
ShortStr(d, s, min) == IF Has(d, s.pos, 1) /\ Has(d, s.pos + 1, At(d, s.pos)) /\ At(d, s.pos) >= min
                       THEN Advance(s, s.pos + 1 + At(d, s.pos)) ELSE Bad(s)
(* colors: end indices and colors, then end offsets and names *)
Colors(d, s, width) ==
  IF ~Has(d, s.pos, 1) THEN Bad(s)
     ELSE IF At(d, s.pos) = 0 THEN Advance(s, s.pos + 1)
     ELSE IF ~Has(d, s.pos + 1, At(d, s.pos)) THEN Bad(s)
     ELSE LET k == At(d, s.pos)
              total == At(d, s.pos + k)
              ne == s.pos + 1 + k + total * width     \* name end offsets
          IN IF total < k \/ s.colors + total > 255 \/ ~Has(d, ne, 2 * k) THEN Bad(s)
             ELSE LET len == U16(d, ne + 2 * (k - 1))
                  IN IF len < k \/ ~Has(d, ne + 2 * k, len) THEN Bad(s)
                     ELSE [Advance(s, ne + 2 * k + len) EXCEPT !.colors = @ + total]
Kern(d, s) == IF ~Has(d, s.pos, 3) THEN Bad(s)
              ELSE LET n == U24(d, s.pos)
                   IN IF n > 0 /\ (n - 1) \div s.ng >= s.ng THEN Bad(s)    \* n <= ng * ng, without overflow
                      ELSE IF ~Has(d, s.pos + 3, 5 * n) THEN Bad(s) ELSE Advance(s, s.pos + 3 + 5 * n)

Section(d, s) ==
  LET k == Sections[s.sec]
      p == s.pos
  IN CASE k = "fixed" -> IF Has(d, p, 28) /\ At(d, 0) = 2 /\ At(d, 1) = 0 /\ At(d, 2) = 0 /\ At(d, 3) = 0 /\ GoodID(d, 4)
                         THEN Advance(s, 28) ELSE Bad(s)
       [] k = "name" -> ShortStr(d, s, 1)
       [] k = "family" -> ShortStr(d, s, 0)
       [] k = "author" -> ShortStr(d, s, 0)
       [] k = "about" -> IF Has(d, p, 2) /\ Has(d, p + 2, U16(d, p)) THEN Advance(s, p + 2 + U16(d, p)) ELSE Bad(s)
       [] k = "metrics" ->
            IF ~Has(d, p, 15) THEN Bad(s)
            ELSE LET ng == U16(d, p)
                     vert == At(d, p + 2)
                     ascent == At(d, p + 4)
                 IN IF ng = 0 \/ vert > 1 \/ ascent = 0 \/ At(d, p + 5) > ascent \/ (At(d, p + 11) # 0 /\ vert = 0)
                    THEN Bad(s) ELSE [Advance(s, p + 15) EXCEPT !.ng = ng, !.vert = (vert = 1)]
       [] k = "dyes" -> Colors(d, s, 1)
       [] k = "palettes" -> Colors(d, s, 4)
       [] k = "names" -> LET t == Table(d, p, 2, 2, 3, LAMBDA n : 0, LAMBDA n : 32 * n)
                         IN IF t.ok /\ t.n > s.ng THEN Bad(s) ELSE AfterTable(s, t)
       [] k = "masks" ->       \* a table whose count is the number of glyphs
            IF ~Has(d, p, 3 * s.ng) THEN Bad(s)
            ELSE LET total == U24(d, p + 3 * (s.ng - 1))
                 IN IF total < s.ng * (IF s.vert THEN 4 ELSE 1) \/ ~Has(d, p + 3 * s.ng, total) THEN Bad(s)
                    ELSE Advance(s, p + 3 * s.ng + total)
       [] k = "words" -> AfterTable(s, Table(d, p, 1, 0, 2, LAMBDA n : n, LAMBDA n : 32 * n))
       [] k = "settings" ->    \* the names, then the options, as many as names
            LET t == Table(d, p, 1, 0, 2, LAMBDA n : n, LAMBDA n : 32 * n)
            IN IF ~t.ok THEN Bad(s)
               ELSE IF t.n = 0 THEN Advance(s, p + 1)
               ELSE IF ~Has(d, t.next, 2 * t.n) THEN Bad(s)
               ELSE LET total == U16(d, t.next + 2 * (t.n - 1))
                    IN IF total < t.n \/ ~Has(d, t.next + 2 * t.n, total) THEN Bad(s)
                       ELSE [Advance(s, t.next + 2 * t.n + total) EXCEPT !.ns = t.n]
       [] k = "switches" -> LET t == Table(d, p, 1, 0, 2, LAMBDA n : n, LAMBDA n : n * s.ns)
                            IN IF t.ok /\ t.n > 254 THEN Bad(s) ELSE AfterTable(s, t)
       [] k = "mapping" -> AfterTable(s, Table(d, p, 2, 4, 3, LAMBDA n : 3 * n, NoLimit))
       [] k = "conds" -> AfterTable(s, Table(d, p, 1, 0, 2, LAMBDA n : 2 * n, NoLimit))
       [] k \in {"rsets", "gsets"} -> AfterTable(s, Table(d, p, 1, 0, 2, LAMBDA n : 2 * n, NoLimit))
       [] k \in {"urules", "grules"} -> AfterTable(s, Table(d, p, 2, 0, 3, LAMBDA n : 8 * n, LAMBDA n : 4096 * n))
       [] k \in {"kern", "vkern"} -> Kern(d, s)

Step(d, s) == IF s.sec <= Len(Sections) THEN Section(d, s)
              ELSE [s EXCEPT !.st = IF s.pos = DLen(d) /\ DLen(d) <= MaxSize THEN "ok" ELSE "bad"]
RECURSIVE Walk(_, _)
Walk(d, s) == IF s.st # "run" THEN s ELSE Walk(d, TLCEval(Step(d, s)))
Parse(d) == Walk(d, Start)
Accepts(d) == Parse(d).st = "ok"

-----------------------------------------------------------------------------
(* What the accessors report for accepted data whose inner offsets are sound.  *)
Off(s, k) == s.offs[CHOOSE i \in 1..Len(Sections) : Sections[i] = k]
(* the chunks of a table: ends at e (w bytes each, n of them), data at base *)
Chunk(d, e, w, base, i) == LET from == IF i = 0 THEN 0 ELSE UN(d, e + w * (i - 1), w)
                               to == UN(d, e + w * i, w)
                           IN Bytes(d, base + from, to - from)
Chunks(d, e, w, n, base) == [i \in 1..n |-> Chunk(d, e, w, base, i - 1)]
Tab(d, p, cw, pre, ew) == LET n == UN(d, p, cw)
                              e == p + cw + n * pre
                          IN Chunks(d, e, ew, n, e + n * ew)
DateAt(d, i) == <<U16(d, i), At(d, i + 2), At(d, i + 3)>>
ColorsView(d, p, w) ==
  LET n == At(d, p)
      total == IF n = 0 THEN 0 ELSE At(d, p + n)
      cols == p + 1 + n
      ne == cols + total * w
      from(i) == IF i = 1 THEN 0 ELSE At(d, p + i - 1)
      names == Chunks(d, ne, 2, n, ne + 2 * n)
  IN [i \in 1..n |-> [name |-> names[i],
                      colors |-> [k \in 1..At(d, p + i) - from(i) |->
                                    IF w = 1 THEN <<At(d, cols + from(i) + k - 1)>> ELSE Bytes(d, cols + 4 * (from(i) + k - 1), 4)]]]
KernView(d, p) == LET n == U24(d, p)
                  IN [i \in 1..n |-> <<U16(d, p + 3 + 4 * (i - 1) + 2), U16(d, p + 3 + 4 * (i - 1)), I8(At(d, p + 3 + 4 * n + i - 1))>>]
View(d) ==
  LET s == Parse(d)
      m == Off(s, "metrics")
      ns == At(d, Off(s, "settings"))
      sp == Off(s, "settings")
      snamesEnd == IF ns = 0 THEN sp + 1 ELSE sp + 1 + 2 * ns + U16(d, sp + 1 + 2 * (ns - 1))
      mp == Off(s, "mapping")
      nm == U16(d, mp)
      masks == Chunks(d, Off(s, "masks"), 3, s.ng, Off(s, "masks") + 3 * s.ng)
      pl == IF s.vert THEN 4 ELSE 1
      np == Off(s, "names")
  IN [header |-> [fmt |-> U24(d, 0), id |-> Bytes(d, 4, 8), major |-> U16(d, 12), minor |-> U16(d, 14),
                  dates |-> <<DateAt(d, 16), DateAt(d, 20), DateAt(d, 24)>>,
                  name |-> Bytes(d, Off(s, "name") + 1, At(d, Off(s, "name"))),
                  family |-> Bytes(d, Off(s, "family") + 1, At(d, Off(s, "family"))),
                  author |-> Bytes(d, Off(s, "author") + 1, At(d, Off(s, "author"))),
                  about |-> Bytes(d, Off(s, "about") + 2, U16(d, Off(s, "about")))],
      metrics |-> [ng |-> s.ng, vert |-> s.vert, rest |-> Bytes(d, m + 3, 12)],
      dyes |-> ColorsView(d, Off(s, "dyes"), 1), palettes |-> ColorsView(d, Off(s, "palettes"), 4),
      names |-> LET ks == Tab(d, np, 2, 2, 3) IN [i \in 1..Len(ks) |-> <<ks[i], U16(d, np + 2 + 2 * (i - 1))>>],
      placements |-> [i \in 1..s.ng |-> IF s.vert THEN SubSeq(masks[i], 1, 4) ELSE <<masks[i][1], 0, 0, 0>>],
      masks |-> [i \in 1..s.ng |-> SubSeq(masks[i], pl + 1, Len(masks[i]))],
      words |-> Tab(d, Off(s, "words"), 1, 0, 2),
      settings |-> LET names == Tab(d, sp, 1, 0, 2)
                       opts == Chunks(d, snamesEnd, 2, ns, snamesEnd + 2 * ns)
                   IN [i \in 1..ns |-> [name |-> names[i], opts |-> opts[i]]],
      switches |-> Tab(d, Off(s, "switches"), 1, 0, 2),
      mapping |-> LET es == Tab(d, mp, 2, 4, 3) IN [i \in 1..nm |-> <<I32(d, mp + 2 + 4 * (i - 1)), es[i]>>],
      conds |-> Tab(d, Off(s, "conds"), 1, 0, 2),
      rsets |-> Tab(d, Off(s, "rsets"), 1, 0, 2), gsets |-> Tab(d, Off(s, "gsets"), 1, 0, 2),
      urules |-> Tab(d, Off(s, "urules"), 2, 0, 3), grules |-> Tab(d, Off(s, "grules"), 2, 0, 3),
      kern |-> KernView(d, Off(s, "kern")), vkern |-> KernView(d, Off(s, "vkern"))]

-----------------------------------------------------------------------------
(* Writing a font: the inverse of View.                                        *)
W16(v) == <<v % 256, v \div 256>>
W24(v) == <<v % 256, (v \div 256) % 256, v \div 65536>>
W32(v) == LET u == IF v < 0 THEN v + 1073741824 + 1073741824 ELSE v   \* clears the sign bit
          IN <<u % 256, (u \div 256) % 256, (u \div 65536) % 256, (u \div 16777216) + IF v < 0 THEN 128 ELSE 0>>
WN(v, w) == IF w = 1 THEN <<v>> ELSE IF w = 2 THEN W16(v) ELSE W24(v)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
RECURSIVE EndsFrom(_, _, _)
EndsFrom(ss, w, t) == IF ss = <<>> THEN <<>> ELSE WN(t + Len(Head(ss)), w) \o EndsFrom(Tail(ss), w, t + Len(Head(ss)))
WTab(ss, cw, pre, ew) == WN(Len(ss), cw) \o pre \o EndsFrom(ss, ew, 0) \o Concat(ss)
WDate(x) == W16(x[1]) \o <<x[2], x[3]>>
WColors(cs) == LET cols == [i \in 1..Len(cs) |-> cs[i].colors]
                   names == [i \in 1..Len(cs) |-> cs[i].name]
               IN <<Len(cs)>> \o EndsFrom(cols, 1, 0) \o Concat([i \in 1..Len(cs) |-> Concat(cols[i])])
                  \o EndsFrom(names, 2, 0) \o Concat(names)
WKern(ks) == W24(Len(ks)) \o Concat([i \in 1..Len(ks) |-> W16(ks[i][2]) \o W16(ks[i][1])])
             \o [i \in 1..Len(ks) |-> IF ks[i][3] < 0 THEN ks[i][3] + 256 ELSE ks[i][3]]
WName(s) == <<Len(s)>> \o s
Write(v) ==
  LET h == v.header
      snames == [i \in 1..Len(v.settings) |-> v.settings[i].name]
      sopts == [i \in 1..Len(v.settings) |-> v.settings[i].opts]
      nnames == [i \in 1..Len(v.names) |-> v.names[i][1]]
      maps == [i \in 1..Len(v.mapping) |-> v.mapping[i][2]]
      glyphs == [i \in 1..v.metrics.ng |-> (IF v.metrics.vert THEN v.placements[i] ELSE <<v.placements[i][1]>>) \o v.masks[i]]
  IN W24(h.fmt) \o <<0>> \o h.id \o W16(h.major) \o W16(h.minor) \o WDate(h.dates[1]) \o WDate(h.dates[2]) \o WDate(h.dates[3])
     \o WName(h.name) \o WName(h.family) \o WName(h.author) \o W16(Len(h.about)) \o h.about
     \o W16(v.metrics.ng) \o <<IF v.metrics.vert THEN 1 ELSE 0>> \o v.metrics.rest
     \o WColors(v.dyes) \o WColors(v.palettes)
     \o WTab(nnames, 2, Concat([i \in 1..Len(v.names) |-> W16(v.names[i][2])]), 3)
     \o EndsFrom(glyphs, 3, 0) \o Concat(glyphs)
     \o WTab(v.words, 1, <<>>, 2)
     \o WTab(snames, 1, <<>>, 2) \o (IF sopts = <<>> THEN <<>> ELSE EndsFrom(sopts, 2, 0) \o Concat(sopts))
     \o WTab(v.switches, 1, <<>>, 2)
     \o WTab(maps, 2, Concat([i \in 1..Len(v.mapping) |-> W32(v.mapping[i][1])]), 3)
     \o WTab(v.conds, 1, <<>>, 2) \o WTab(v.rsets, 1, <<>>, 2) \o WTab(v.gsets, 1, <<>>, 2)
     \o WTab(v.urules, 2, <<>>, 3) \o WTab(v.grules, 2, <<>>, 3) \o WKern(v.kern) \o WKern(v.vkern)
=============================================================================
