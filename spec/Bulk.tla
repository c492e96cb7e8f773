-------------------------------- MODULE Bulk --------------------------------
(* Fonts with tables as large as the format allows.  Every table is given by a *)
(* formula over the number of its entry, so that what a lookup must report is  *)
(* computed directly instead of being searched for in a list.  A description d *)
(* holds:                                                                      *)
(*   ng      number of glyphs; glyph g advances (g * am) % 251 and draws       *)
(*           (g * pm) % pk pixels in a row, two apart                          *)
(*   names   n names, the i-th being the w digits of i * step in base 26       *)
(*   map     n code points first + i * step                                    *)
(*   kern    n pairs, m to a row: rows of glyphs ps apart, columns cs apart    *)
(*   vkern   the same for the vertical table                                   *)
(*   ur, gr  n rewrite rules of runes and of glyphs                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
R == INSTANCE Raster WITH Ctrls <- {}, Vals <- {}, Moves <- {}, Alphas <- {}, MaxOps <- 0, s <- <<>>, box <- <<>>, nops <- 0

Missing == 56789

(* --- glyphs --- *)
Advance(d, g) == (g * d.am) % 251
NumPx(d, g) == (g * d.pm) % d.pk
Image(d, g) == {<<2 * j, 0, 255>> : j \in 0..NumPx(d, g) - 1}
(* the mask that draws it: a pixel, then for every other pixel a step and a pixel *)
RECURSIVE MaskOf(_)
MaskOf(k) == IF k = 0 THEN <<>> ELSE IF k = 1 THEN <<128>> ELSE MaskOf(k - 1) \o <<130, 0>>
ASSUME \A k \in 0..6 : R!RunCode(MaskOf(k)).s.img = {<<2 * j, 0, 255>> : j \in 0..k - 1}

(* --- names --- *)
RECURSIVE Digits(_, _)
Digits(v, w) == IF w = 0 THEN <<>> ELSE Append(Digits(v \div 26, w - 1), 97 + (v % 26))
RECURSIVE Number(_)
Number(t) == IF t = <<>> THEN 0 ELSE 26 * Number(SubSeq(t, 1, Len(t) - 1)) + (t[Len(t)] - 97)
IsDigits(t, w) == Len(t) = w /\ \A i \in 1..w : t[i] \in 97..122
ASSUME \A v \in {0, 1, 25, 26, 675, 676, 17575} : Number(Digits(v, 3)) = v /\ IsDigits(Digits(v, 3), 3)
NameGlyph(d, i) == (d.names.add + i * d.names.mul) % d.ng
FindName(d, t) == IF d.names.n = 0 \/ ~IsDigits(t, d.names.w) THEN Missing
                  ELSE LET v == Number(t)
                       IN IF (v % d.names.step) # 0 \/ (v \div d.names.step) >= d.names.n THEN Missing
                          ELSE NameGlyph(d, v \div d.names.step)
ASSUME \* the glyphs of the names of a font are those given
  LET d == [ng |-> 5, names |-> [n |-> 4, w |-> 2, step |-> 9, mul |-> 2, add |-> 1]]
  IN [i \in 0..3 |-> FindName(d, Digits(i * 9, 2))] = [i \in 0..3 |-> (1 + 2 * i) % 5] /\ FindName(d, <<97, 98>>) = Missing /\ FindName(d, <<98, 107>>) = Missing

(* --- code points --- *)
NotFound == [found |-> FALSE, size |-> 0, flags |-> 0, case |-> 0, glyphs |-> <<>>]
FindCode(d, cp) == LET v == cp - d.map.first
                   IN IF d.map.n = 0 \/ v < 0 \/ (v % d.map.step) # 0 \/ (v \div d.map.step) >= d.map.n THEN NotFound
                      ELSE [found |-> TRUE, size |-> 1, flags |-> 0, case |-> 0,
                            glyphs |-> <<(d.map.add + (v \div d.map.step) * d.map.mul) % d.ng>>]
(* in fonts whose entries depend on a switch of two cases, the glyph is the next one in the second *)
CodeGlyph(d, i, val) == (d.map.add + i * d.map.mul + val) % d.ng

(* --- a large cache of lookups --- *)
(* The code points are looked up in passes <<from, to>> over the numbers of    *)
(* their entries.  recent lists the ranges of cached entries, the most recent  *)
(* first, within a range the larger number being the more recent one; since    *)
(* are the ranges looked up since the last drop.  See MappingCache for the     *)
(* same cache entry by entry.                                                  *)
InRange(x, r) == r[1] <= x /\ x <= r[2]
SizeOf(r) == IF r[2] < r[1] THEN 0 ELSE r[2] - r[1] + 1
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
RECURSIVE CutOut(_, _)
CutOut(rs, p) == IF rs = <<>> THEN <<>>
                 ELSE LET r == Head(rs)
                          up == <<MaxI(r[1], p[2] + 1), r[2]>>
                          dn == <<r[1], MinI(r[2], p[1] - 1)>>
                      IN (IF SizeOf(up) > 0 THEN <<up>> ELSE <<>>) \o (IF SizeOf(dn) > 0 THEN <<dn>> ELSE <<>>) \o CutOut(Tail(rs), p)
RECURSIVE Upto(_, _)
Upto(rs, size) == IF rs = <<>> \/ size = 0 THEN <<>>
                  ELSE LET r == Head(rs)
                       IN IF SizeOf(r) > size THEN <<<<r[2] - size + 1, r[2]>>>> ELSE <<r>> \o Upto(Tail(rs), size - SizeOf(r))
AfterPass(recent, p, size) == Upto(<<p>> \o CutOut(recent, p), size)
(* how many others were looked up since x was, when the pass comes to x *)
RECURSIVE Others(_, _, _)
Others(rs, x, p) == LET r == Head(rs)
                    IN IF InRange(x, r) THEN r[2] - x
                       ELSE SizeOf(r) - SizeOf(<<MaxI(r[1], p[1]), MinI(r[2], x - 1)>>) + Others(Tail(rs), x, p)
Cached(recent, x, p, size) == /\ \E i \in 1..Len(recent) : InRange(x, recent[i])
                              /\ (x - p[1]) + Others(recent, x, p) < size
PassHit(recent, since, x, p, size) == (\E i \in 1..Len(since) : InRange(x, since[i])) /\ Cached(recent, x, p, size)
(* entry by entry: the hits of a pass and the order it leaves *)
M == INSTANCE MappingCache WITH Cps <- {}, Missing <- {}, Size <- 0, MaxVal <- 0, MaxOps <- 0,
       order <- <<>>, sig <- {}, stored <- <<>>, val <- 0, stale <- FALSE, time <- 0, stamp <- <<>>, nops <- 0, ans <- <<>>
RECURSIVE Walk(_, _, _, _)
Walk(o, p, size, hits) == IF p[1] > p[2] THEN [o |-> o, hits |-> hits]
                          ELSE Walk(M!Touch(o, p[1], size), <<p[1] + 1, p[2]>>, size, Append(hits, M!Has(o, p[1])))
RECURSIVE Listed(_)
Listed(rs) == IF rs = <<>> THEN <<>> ELSE [i \in 1..SizeOf(Head(rs)) |-> Head(rs)[2] - i + 1] \o Listed(Tail(rs))
(* both agree, whatever the passes *)
RECURSIVE Agree(_, _, _, _)
Agree(recent, o, size, ps) ==
  \/ ps = <<>>
  \/ LET p == Head(ps)
         w == Walk(o, p, size, <<>>)
         r == AfterPass(recent, p, size)
     IN /\ \A k \in 1..SizeOf(p) : w.hits[k] = Cached(recent, p[1] + k - 1, p, size)
        /\ Listed(r) = w.o
        /\ Agree(r, w.o, size, Tail(ps))
Ranges(n) == {r \in (0..n) \X (0..n) : r[1] <= r[2]}

(* --- kerning --- *)
KernValue(i) == LET v == ((i * 7) % 253) - 126 IN IF v = 0 THEN 127 ELSE v
FindKern(k, a, b) == IF k.n = 0 \/ (a % k.ps) # 0 \/ (b % k.cs) # 0 \/ (b \div k.cs) >= k.m THEN 0
                     ELSE LET i == (a \div k.ps) * k.m + (b \div k.cs)
                          IN IF i >= k.n THEN 0 ELSE KernValue(i)

(* --- rewrite rules: 1 to 3 elements in the body, one in the output --- *)
B2(v) == <<v % 256, v \div 256>>
B4(v) == <<v % 256, (v \div 256) % 256, v \div 65536, 0>>
RuleIn(d, i, j) == (i * 3 + j) % d.ng
RuleOut(d, i) == (i * 5 + 1) % d.ng
RuneIn(i, j) == 32 + i + 70000 * j
RuneOut(i) == 66000 + i
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
BodyLen(i) == 1 + (i % 3)
GlyphRule(d, i) == LET n == BodyLen(i)
                   IN [data |-> <<255, 0, n, 0, 1>> \o B2(RuleOut(d, i)) \o <<0, n>> \o Cat([j \in 1..n |-> B2(RuleIn(d, i, j - 1))]) \o <<0>>,
                       lens |-> <<255, 0, n, 0, n, 1>>, out |-> <<RuleOut(d, i)>>]
RuneRule(i) == LET n == BodyLen(i)
               IN [data |-> <<255, 0, n, 0, 1>> \o B4(RuneOut(i)) \o <<0, n>> \o Cat([j \in 1..n |-> B4(RuneIn(i, j - 1))]) \o <<0>>,
                   lens |-> <<255, 0, n, 0, n, 1>>, out |-> <<RuneOut(i)>>]
=============================================================================
