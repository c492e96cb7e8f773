------------------------------ MODULE Builder -------------------------------
(* The font builder: what it has been told so far, what every operation does   *)
(* to it, when an operation is refused, and the font it builds.                *)
(*                                                                             *)
(* Glyphs and sets are named by the number of their creation (1, 2, ...); in   *)
(* operands 0 stands for something that does not exist.  Strings are lists of  *)
(* bytes, images sets of pixels <<x, y, alpha>>, operations records e.         *)
EXTENDS Report, SequencesExt
F == INSTANCE Format
Cal == INSTANCE Calendar WITH Years <- {}, year <- 1, month <- 1, day <- 1, seen <- 1

-----------------------------------------------------------------------------
(* Strings                                                                     *)
IsCont(c) == c >= 128 /\ c <= 191
LeadLen(c) == IF c < 128 THEN 1 ELSE IF c \in 194..223 THEN 2 ELSE IF c \in 224..239 THEN 3 ELSE IF c \in 240..244 THEN 4 ELSE 0
SecondOK(c, x) == IsCont(x) /\ CASE c = 224 -> x >= 160 [] c = 237 -> x < 160 [] c = 240 -> x >= 144 [] c = 244 -> x < 144 [] OTHER -> TRUE
(* UTF-8 without control characters, byte by byte *)
TextByte(s, i) ==
  IF s[i] < 128 THEN s[i] >= 32
  ELSE IF IsCont(s[i])
       THEN \E k \in 1..3 : i - k >= 1 /\ LeadLen(s[i - k]) > k /\ \A j \in 1..k - 1 : IsCont(s[i - j])
       ELSE LET n == LeadLen(s[i]) IN n > 1 /\ i + n - 1 <= Len(s) /\ SecondOK(s[i], s[i + 1]) /\ \A j \in 1..n - 1 : IsCont(s[i + j])
Text(s) == \A i \in 1..Len(s) : TextByte(s, i)
Alnum(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122
Hyphen == 45
BasicName(s) == /\ Len(s) \in 1..32 /\ s[1] # Hyphen /\ s[Len(s)] # Hyphen
                /\ \A i \in 1..Len(s) : Alnum(s[i]) \/ (s[i] = Hyphen /\ s[i + 1] # Hyphen)
SpacedName(s) == Len(s) \in 1..32 /\ \A i \in 1..Len(s) : Alnum(s[i]) \/ s[i] \in {Hyphen, 32}

-----------------------------------------------------------------------------
(* State                                                                       *)
Unnamed == <<85, 110, 110, 97, 109, 101, 100>>
NewMetrics == [vert |-> FALSE, mono |-> 0, asc |-> 9, xasc |-> 0, desc |-> 5, xdesc |-> 0, upper |-> 9, mid |-> 5,
               hinter |-> 1, vinter |-> 0, gap |-> 1, vlw |-> 0, vlg |-> 0]
New(id, today) ==
  [id |-> id, major |-> 0, minor |-> 1, dates |-> <<today, today, today>>,
   name |-> Unnamed, family |-> Unnamed, author |-> <<65, 117, 116, 104, 111, 114, 108, 101, 115, 115>>,
   about |-> <<78, 111, 32, 105, 110, 102, 111, 114, 109, 97, 116, 105, 111, 110, 32, 97, 118, 97, 105, 108, 97, 98, 108, 101, 46>>,
   m |-> NewMetrics, glyphs |-> <<>>, dyes |-> <<>>, pals |-> <<>>, settings |-> <<>>, switches |-> <<>>, map |-> <<>>,
   gsets |-> <<>>, rsets |-> <<>>, made |-> [gset |-> 0, rset |-> 0], urules |-> <<>>, grules |-> <<>>,
   kern |-> <<>>, vkern |-> <<>>, classes |-> <<>>, noise |-> 0]
NG(b) == Len(b.glyphs)
IsGlyph(b, g) == g \in 1..NG(b)
SetAt(ss, h) == IF \E i \in 1..Len(ss) : ss[i].h = h THEN CHOOSE i \in 1..Len(ss) : ss[i].h = h ELSE 0
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Index(s, x) == IF \E i \in 1..Len(s) : s[i] = x THEN CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..i - 1 : s[j] # x ELSE 0
SeqSet(s) == {s[i] : i \in 1..Len(s)}
Reset(s, pos, x) == [s EXCEPT ![pos] = x]

(* refused: an error (or, where out says so, something else), nothing changes  *)
No(b) == [b |-> b, out |-> {"err"}]
NoPanic(b) == [b |-> b, out |-> {"err", "panic"}]
False(b) == [b |-> b, out |-> {"false"}]
Void(b) == [b |-> b, out |-> {"ok"}]
True(b) == [b |-> b, out |-> {"true"}]
Check(ok, old, new) == IF ok THEN Void(new) ELSE No(old)

-----------------------------------------------------------------------------
(* Header and metrics                                                          *)
DoStr(b, e) == LET n == Len(e.s)
                   ok == Text(e.s) /\ (e.f = "name" => n > 0) /\ n <= (IF e.f = "about" THEN 65535 ELSE 255)
               IN Check(ok, b, [b EXCEPT ![e.f] = e.s])
DoDate(b, e) == Check(Cal!Valid(e.date[1], e.date[2], e.date[3]), b, [b EXCEPT !.dates[e.i] = e.date])
DoRaise(b, e, today) == IF e.k = "major" THEN Void([b EXCEPT !.major = @ + 1, !.minor = 0, !.dates[2] = today, !.dates[3] = today])
                        ELSE Void([b EXCEPT !.minor = @ + 1, !.dates[3] = today])
DoVersion(b, e, today) == Void([b EXCEPT !.major = e.major, !.minor = e.minor, !.dates[2] = today, !.dates[3] = today])
DoU8(b, e) == LET ok == CASE e.f = "vlw" -> (e.v # 0) = b.m.vert [] e.f = "vlg" -> e.v # 0 => b.m.vert [] OTHER -> TRUE
              IN Check(ok, b, [b EXCEPT !.m[e.f] = e.v])
DoVert(b, e) == Void([b EXCEPT !.m.vert = e.v])
MetricsOK_(m) == /\ m.asc > 0 /\ m.asc > m.xasc /\ m.asc >= m.mid /\ m.asc >= m.upper
                 /\ (m.vinter = 0 \/ m.vert) /\ m.mid <= m.upper

(* Glyphs                                                                      *)
Box(img) == LET xs == {p[1] : p \in img}
                ys == {p[2] : p \in img}
                lo(S) == CHOOSE v \in S : \A w \in S : v <= w
                hi(S) == CHOOSE v \in S : \A w \in S : v >= w
            IN <<lo(xs), lo(ys), hi(xs) + 1, hi(ys) + 1>>
Fits(m, img) == img = {} \/ LET r == Box(img)
                            IN /\ -r[2] <= m.asc + m.xasc /\ r[4] <= m.desc + m.xdesc
                               /\ m.mono # 0 => (r[1] >= 0 /\ r[3] <= m.mono)
Clip(v) == IF v > 255 THEN 255 ELSE v
MaxGlyphs == 56789
NewGlyph(b, img, dx) == [name |-> <<>>, place |-> <<Clip(dx), b.m.asc, b.m.desc, Clip(dx \div 2)>>, img |-> img]
DoGlyph(b, e) == LET img == {e.px[i] : i \in 1..Len(e.px)}
                 IN Check(NG(b) < MaxGlyphs /\ Fits(b.m, img), b, [b EXCEPT !.glyphs = Append(@, NewGlyph(b, img, e.rect[3] - e.rect[1]))])
DoPlace(b, e) == Check(IsGlyph(b, e.g), b, [b EXCEPT !.glyphs[e.g].place = e.v])
DoGName(b, e) == Check(IsGlyph(b, e.g) /\ BasicName(e.s), b, [b EXCEPT !.glyphs[e.g].name = e.s])
(* kerning pairs <<first, second>> with their own value and a class (0 for none) *)
PairAt(ks, a, c) == IF \E i \in 1..Len(ks) : ks[i].a = a /\ ks[i].c = c THEN CHOOSE i \in 1..Len(ks) : ks[i].a = a /\ ks[i].c = c ELSE 0
PutPair(ks, x) == LET i == PairAt(ks, x.a, x.c) IN IF i = 0 THEN Append(ks, x) ELSE [ks EXCEPT ![i] = x]
DelPair(ks, a, c) == LET i == PairAt(ks, a, c) IN IF i = 0 THEN ks ELSE Without(ks, i)
DoKern(b, e) == IF ~IsGlyph(b, e.a) \/ ~IsGlyph(b, e.c) THEN Void(b)
                ELSE IF e.v = 0 THEN Void([b EXCEPT !.kern = DelPair(@, e.a, e.c)])
                ELSE Void([b EXCEPT !.kern = PutPair(@, [a |-> e.a, c |-> e.c, v |-> e.v, class |-> 0])])

(* Colors                                                                      *)
ColorCount(b) == NumColors(b.dyes) + NumColors(b.pals)
ColorOK(b, e) == /\ Len(e.cols) > 0 /\ Len(e.s) \in 1..255
                 /\ \A i \in 1..Len(b.dyes) : b.dyes[i].name # e.s
                 /\ \A i \in 1..Len(b.pals) : b.pals[i].name # e.s
                 /\ ColorCount(b) + Len(e.cols) <= 255
DoDye(b, e) == Check(ColorOK(b, e), b, [b EXCEPT !.dyes = Append(@, [name |-> e.s, colors |-> e.cols])])
DoPal(b, e) == Check(ColorOK(b, e), b, [b EXCEPT !.pals = Append(@, [name |-> e.s, colors |-> e.cols])])
(* a section told by name: its colors with their indices, counting down from 255 *)
Told(secs, before, name) ==
  LET hits == {i \in 1..Len(secs) : secs[i].name = name}
  IN IF hits = {} THEN [ok |-> FALSE, cols |-> <<>>]
     ELSE LET i == CHOOSE i \in hits : TRUE
              first == 255 - before - NumColors(SubSeq(secs, 1, i - 1))
          IN [ok |-> TRUE, cols |-> [k \in 1..Len(secs[i].colors) |-> Append(secs[i].colors[k], first - k + 1)]]
ColorsTold(b, ask) == [i \in 1..Len(ask) |-> <<Told(b.dyes, 0, ask[i]), Told(b.pals, NumColors(b.dyes), ask[i])>>]

(* Settings, switches, mapping                                                 *)
DoSetting(b, e) == Check(/\ BasicName(e.s) /\ \A i \in 1..Len(e.opts) : BasicName(e.opts[i])
                         /\ Len(e.opts) \in 1..255 /\ Len(b.settings) < 255
                         /\ \A i \in 1..Len(b.settings) : b.settings[i].name # e.s,
                         b, [b EXCEPT !.settings = Append(@, [name |-> e.s, opts |-> e.opts])])
NOpts(b) == [i \in 1..Len(b.settings) |-> Len(b.settings[i].opts)]
RECURSIVE FewCases(_, _, _)
FewCases(keys, nopts, n) == n <= 254 /\ (keys = <<>> \/ FewCases(Tail(keys), nopts, n * nopts[Head(keys) + 1]))
DoSwitch(b, e) == Check(/\ Len(e.keys) \in 1..255 /\ Len(b.switches) < 254
                        /\ \A i \in 1..Len(e.keys) : e.keys[i] < Len(b.settings)
                        /\ Cardinality(SeqSet(e.keys)) = Len(e.keys)
                        /\ FewCases(e.keys, NOpts(b), 1),
                        b, [b EXCEPT !.switches = Append(@, e.keys)])
CasesOf(b, sw) == IF sw >= 254 THEN 1 ELSE NumCases(b.switches[sw + 1], NOpts(b))
MapAt(b, cp) == IF \E i \in 1..Len(b.map) : b.map[i].cp = cp THEN CHOOSE i \in 1..Len(b.map) : b.map[i].cp = cp ELSE 0
PutMap(b, cp, sw, groups) == LET i == MapAt(b, cp)
                                 x == [cp |-> cp, sw |-> sw, groups |-> groups]
                             IN [b EXCEPT !.map = IF i = 0 THEN Append(@, x) ELSE [@ EXCEPT ![i] = x]]
AllGlyphs(b, gs) == \A i \in 1..Len(gs) : IsGlyph(b, gs[i])
One(g) == [glyphs |-> <<g>>, flags |-> 0]
DoMap(b, e) == Check(e.cp >= 32 /\ IsGlyph(b, e.g), b, PutMap(b, e.cp, 255, <<One(e.g)>>))
DoMapGroup(b, e) == Check(e.cp >= 32 /\ Len(e.gs) \in 2..127 /\ AllGlyphs(b, e.gs), b,
                          PutMap(b, e.cp, 254, <<[glyphs |-> e.gs, flags |-> e.flags]>>))
SwitchOK(b, e, n) == e.cp >= 32 /\ e.sw < Len(b.switches) /\ n = CasesOf(b, e.sw)
DoMapSingles(b, e) == IF e.sw >= 254 THEN NoPanic(b)
                      ELSE Check(SwitchOK(b, e, Len(e.gs)) /\ AllGlyphs(b, e.gs), b,
                                 PutMap(b, e.cp, e.sw, [i \in 1..Len(e.gs) |-> One(e.gs[i])]))
(* the animation flags are those of the groups of more than one glyph, in order *)
RECURSIVE WithFlags(_, _)
WithFlags(gs, fl) == IF gs = <<>> THEN <<>>
                     ELSE IF Len(Head(gs)) = 1 THEN <<One(Head(gs)[1])>> \o WithFlags(Tail(gs), fl)
                     ELSE <<[glyphs |-> Head(gs), flags |-> Head(fl)]>> \o WithFlags(Tail(gs), Tail(fl))
Multi(gs) == Cardinality({i \in 1..Len(gs) : Len(gs[i]) > 1})
DoMapSwitch(b, e) ==
  IF e.sw >= 254 \/ \E i \in 1..Len(e.groups) : e.groups[i] = <<>> THEN NoPanic(b)
  ELSE IF /\ SwitchOK(b, e, Len(e.groups)) /\ Multi(e.groups) = Len(e.flags)
          /\ \A i \in 1..Len(e.groups) : Len(e.groups[i]) <= 128 /\ AllGlyphs(b, e.groups[i])
       THEN Void(PutMap(b, e.cp, e.sw, WithFlags(e.groups, e.flags))) ELSE No(b)

(* Sets and rules                                                              *)
DoCreate(b, f, k) == IF Len(b[f]) >= 255 THEN No(b)
                     ELSE Void([b EXCEPT ![f] = Append(@, [h |-> b.made[k] + 1, ranges |-> <<>>, list |-> <<>>]), !.made[k] = @ + 1])
DoRemove(b, f, e) == LET i == SetAt(b[f], e.h) IN IF i = 0 THEN False(b) ELSE True([b EXCEPT ![f] = Without(@, i)])
DoAddTo(b, f, part, e, x, ok) == LET i == SetAt(b[f], e.h)
                                 IN IF i = 0 THEN No(b)
                                    ELSE Check(ok /\ Len(b[f][i][part]) < 255 /\ Index(b[f][i][part], x) = 0, b,
                                               [b EXCEPT ![f][i][part] = Append(@, x)])
DoTakeFrom(b, f, part, e, x) == LET i == SetAt(b[f], e.h)
                                IN IF i = 0 THEN False(b)
                                   ELSE LET k == Index(b[f][i][part], x)
                                        IN IF k = 0 THEN False(b) ELSE True([b EXCEPT ![f][i][part] = Without(@, k)])
DoURule(b, e) == Check(Len(b.urules) < 65535 /\ Len(e.seq) \in 1..255, b, [b EXCEPT !.urules = Append(@, [out |-> e.v, seq |-> e.seq])])
(* elements of a glyph rule: g > 0 a glyph, -h a set *)
DoGRule(b, e) == LET els == [i \in 1..Len(e.els) |-> IF e.els[i] < 0 THEN [set |-> TRUE, v |-> -e.els[i]] ELSE [set |-> FALSE, v |-> e.els[i]]]
                 IN Check(/\ Len(b.grules) < 65535 /\ e.lens[2] > 0
                          /\ e.lens[1] + e.lens[2] + e.lens[3] <= 255 /\ e.lens[1] + e.lens[2] + e.lens[3] = Len(e.els)
                          /\ Len(e.out) \in 1..e.lens[2] /\ AllGlyphs(b, e.out)
                          /\ \A i \in 1..Len(els) : IF els[i].set THEN SetAt(b.gsets, els[i].v) # 0 ELSE IsGlyph(b, els[i].v),
                          b, [b EXCEPT !.grules = Append(@, [lens |-> e.lens, els |-> els, out |-> e.out])])

-----------------------------------------------------------------------------
(* Edition data (without the font ID): categories, kerning classes, pairs      *)
(* with classes, horizontal and vertical, and no conditions.  Reading goes     *)
(* through its parts; pos = 0 stands for failure.                              *)
U16At(d, i) == d[i] + 256 * d[i + 1]
U24At(d, i) == d[i] + 256 * (d[i + 1] + 256 * d[i + 2])
RECURSIVE SkipNames(_, _, _)
SkipNames(d, i, n) == IF n = 0 THEN i
                      ELSE IF i > Len(d) \/ i + d[i] > Len(d) \/ ~SpacedName(SubSeq(d, i + 1, i + d[i])) THEN 0
                      ELSE SkipNames(d, i + 1 + d[i], n - 1)
NoEdition == [ok |-> FALSE, classes |-> <<>>, h |-> <<>>, v |-> <<>>]
PairsAt(d, i, n) == [k \in 1..n |-> <<U16At(d, i + 6 * (k - 1)), U16At(d, i + 6 * (k - 1) + 2), U16At(d, i + 6 * (k - 1) + 4)>>]
PairsOK(ps, ng, nc) == \A k \in 1..Len(ps) : ps[k][1] < ng /\ ps[k][2] < ng /\ ps[k][3] \in 1..nc
ReadEdition(d, ng) ==
  IF Len(d) < 1 THEN NoEdition ELSE
  LET ncat == d[1]
      p1 == SkipNames(d, 2, ncat)
  IN IF p1 = 0 \/ p1 + 2 * ncat + 1 > Len(d) THEN NoEdition ELSE
     LET p2 == p1 + 2 * ncat
         nc == U16At(d, p2)
         p3 == SkipNames(d, p2 + 2, nc)
     IN IF p3 = 0 \/ p3 + nc + 2 > Len(d) THEN NoEdition ELSE
        LET classes == [i \in 1..nc |-> F!I8(d[p3 + i - 1])]
            p4 == p3 + nc
            nh == U24At(d, p4)
            p5 == p4 + 3 + 6 * nh
        IN IF p5 + 2 > Len(d) THEN NoEdition ELSE
           LET nv == U24At(d, p5)
               p6 == p5 + 3 + 6 * nv
           IN IF p6 # Len(d) \/ d[p6] # 0 THEN NoEdition ELSE
              LET h == PairsAt(d, p4 + 3, nh)
                  v == PairsAt(d, p5 + 3, nv)
              IN IF PairsOK(h, ng, nc) /\ PairsOK(v, ng, nc) THEN [ok |-> TRUE, classes |-> classes, h |-> h, v |-> v] ELSE NoEdition
Cleared(ks) == LET left == SelectSeq(ks, LAMBDA x : x.class = 0 \/ x.v # 0) IN [i \in 1..Len(left) |-> [left[i] EXCEPT !.class = 0]]
Clear(b) == [b EXCEPT !.kern = Cleared(@), !.vkern = Cleared(@), !.classes = <<>>]
NewPair(p) == [a |-> p[1] + 1, c |-> p[2] + 1, v |-> 0, class |-> p[3]]
RECURSIVE Classed1(_, _)
Classed1(ks, ps) == IF ps = <<>> THEN ks
                    ELSE LET p == Head(ps)
                             i == PairAt(ks, p[1] + 1, p[2] + 1)
                         IN Classed1(TLCEval(IF i = 0 THEN Append(ks, NewPair(p)) ELSE [ks EXCEPT ![i].class = p[3]]), TLCEval(Tail(ps)))
(* the same where no pair is named twice *)
ClassIn(ps, x) == LET m == {i \in 1..Len(ps) : ps[i][1] + 1 = x.a /\ ps[i][2] + 1 = x.c} IN IF m = {} THEN x.class ELSE ps[CHOOSE i \in m : TRUE][3]
Classed2(ks, ps) == LET new == SelectSeq(ps, LAMBDA p : PairAt(ks, p[1] + 1, p[2] + 1) = 0)
                    IN [i \in 1..Len(ks) |-> [ks[i] EXCEPT !.class = ClassIn(ps, ks[i])]] \o [i \in 1..Len(new) |-> NewPair(new[i])]
Classed(ks, ps) == IF Cardinality({<<ps[i][1], ps[i][2]>> : i \in 1..Len(ps)}) = Len(ps) THEN Classed2(ks, ps) ELSE Classed1(ks, ps)
(* e.whole: the stream around the data is undamaged and of this very font *)
DoEdition(b, e) == LET r == IF e.whole THEN ReadEdition(e.data, NG(b)) ELSE NoEdition
                       c == Clear(b)
                   IN IF r.ok THEN Void([c EXCEPT !.kern = Classed(@, r.h), !.vkern = Classed(@, r.v), !.classes = r.classes])
                      ELSE [b |-> c, out |-> {"err"}]
PairValue(b, x) == IF x.class = 0 THEN x.v ELSE b.classes[x.class]

-----------------------------------------------------------------------------
(* many of the same *)
DoFill(b, e) ==
  CASE e.kind = "urule" -> LET n == IF Len(b.urules) + e.n > 65535 THEN 65535 - Len(b.urules) ELSE e.n
                           IN [b |-> [b EXCEPT !.urules = @ \o [i \in 1..n |-> [out |-> 66, seq |-> <<65>>]]], out |-> {"ok"}, n |-> n]
    [] e.kind = "map" -> [b |-> [b EXCEPT !.map = @ \o [i \in 1..e.n |-> [cp |-> e.base + i, sw |-> 255, groups |-> <<One(1)>>]]], out |-> {"ok"}, n |-> e.n]
    [] e.kind = "glyph" -> LET n == IF NG(b) + e.n > MaxGlyphs THEN MaxGlyphs - NG(b) ELSE e.n
                           IN [b |-> [b EXCEPT !.glyphs = @ \o [i \in 1..n |-> NewGlyph(b, {}, 1)]], out |-> {"ok"}, n |-> n]
    \* glyphs whose masks are noise: what they look like is not told, only that they take space
    [] e.kind = "noise" -> [b |-> [b EXCEPT !.noise = @ + e.n, !.glyphs = @ \o [i \in 1..e.n |-> NewGlyph(b, {}, 255)]], out |-> {"ok"}, n |-> e.n]
    \* code points mapped to large groups in all cases of a switch
    [] e.kind = "wide" -> LET gs == [k \in 1..CasesOf(b, e.sw) |-> [glyphs |-> [i \in 1..128 |-> 1 + ((i * i) % 3)], flags |-> 1]]
                          IN [b |-> [b EXCEPT !.map = @ \o [i \in 1..e.n |-> [cp |-> e.base + i, sw |-> e.sw, groups |-> gs]]], out |-> {"ok"}, n |-> e.n]
    [] e.kind = "long" -> [b |-> [b EXCEPT !.urules = @ \o [i \in 1..e.n |-> [out |-> 66, seq |-> [k \in 1..255 |-> k]]]], out |-> {"ok"}, n |-> e.n]
    \* a set (e.set: gsets or rsets) without elements gets elements and ranges of one element
    [] e.kind = "set" -> LET i == SetAt(b[e.set], e.h)
                             xs == [k \in 1..e.n |-> e.base + k]
                         IN [b |-> [b EXCEPT ![e.set][i].list = xs, ![e.set][i].ranges = [k \in 1..e.n |-> <<e.base + k, e.base + k>>]], out |-> {"ok"}, n |-> 2 * e.n]

(* an operation: the state after it and the outcomes it may report *)
Apply(b, e, today) ==
  CASE e.op = "b.str" -> DoStr(b, e)
    [] e.op = "b.date" -> DoDate(b, e)
    [] e.op = "b.raise" -> DoRaise(b, e, today)
    [] e.op = "b.version" -> DoVersion(b, e, today)
    [] e.op = "b.u8" -> DoU8(b, e)
    [] e.op = "b.vert" -> DoVert(b, e)
    [] e.op = "b.glyph" -> DoGlyph(b, e)
    [] e.op = "b.place" -> DoPlace(b, e)
    [] e.op = "b.gname" -> DoGName(b, e)
    [] e.op = "b.kern" -> DoKern(b, e)
    [] e.op = "b.dye" -> DoDye(b, e)
    [] e.op = "b.pal" -> DoPal(b, e)
    [] e.op = "b.setting" -> DoSetting(b, e)
    [] e.op = "b.switch" -> DoSwitch(b, e)
    [] e.op = "b.map" -> DoMap(b, e)
    [] e.op = "b.mapg" -> DoMapGroup(b, e)
    [] e.op = "b.maps" -> DoMapSingles(b, e)
    [] e.op = "b.mapsw" -> DoMapSwitch(b, e)
    [] e.op = "b.gset" -> DoCreate(b, "gsets", "gset")
    [] e.op = "b.rset" -> DoCreate(b, "rsets", "rset")
    [] e.op = "b.gsetrm" -> DoRemove(b, "gsets", e)
    [] e.op = "b.rsetrm" -> DoRemove(b, "rsets", e)
    [] e.op = "b.grange" -> DoAddTo(b, "gsets", "ranges", e, <<e.a, e.c>>, IsGlyph(b, e.a) /\ IsGlyph(b, e.c))
    [] e.op = "b.rrange" -> DoAddTo(b, "rsets", "ranges", e, <<e.a, e.c>>, e.a <= e.c)
    [] e.op = "b.glist" -> DoAddTo(b, "gsets", "list", e, e.v, IsGlyph(b, e.v))
    [] e.op = "b.rlist" -> DoAddTo(b, "rsets", "list", e, e.v, TRUE)
    [] e.op = "b.ungrange" -> DoTakeFrom(b, "gsets", "ranges", e, <<e.a, e.c>>)
    [] e.op = "b.unrrange" -> DoTakeFrom(b, "rsets", "ranges", e, <<e.a, e.c>>)
    [] e.op = "b.unglist" -> DoTakeFrom(b, "gsets", "list", e, e.v)
    [] e.op = "b.unrlist" -> DoTakeFrom(b, "rsets", "list", e, e.v)
    [] e.op = "b.urule" -> DoURule(b, e)
    [] e.op = "b.grule" -> DoGRule(b, e)
    [] e.op = "b.edition" -> DoEdition(b, e)
    [] e.op = "b.clear" -> Void(Clear(b))
    [] e.op = "b.fill" -> DoFill(b, e)

-----------------------------------------------------------------------------
(* What can be asked of the builder itself                                     *)
HexDigits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
Hex(v) == HexDigits[(v \div 16) + 1] \o HexDigits[(v % 16) + 1]
IDStr(id) == Hex(id[8]) \o Hex(id[7]) \o Hex(id[6]) \o Hex(id[5]) \o Hex(id[4]) \o Hex(id[3]) \o Hex(id[2]) \o Hex(id[1])
VerStr(b) == "v" \o ToString(b.major) \o "." \o (IF b.minor < 10 THEN "0" ELSE "") \o ToString(b.minor)
Obs(b) == [id |-> b.id, idstr |-> IDStr(b.id), ver |-> <<b.major, b.minor>>, verstr |-> VerStr(b), dates |-> b.dates,
           name |-> b.name, family |-> b.family, author |-> b.author, about |-> b.about,
           m |-> <<b.m.mono, b.m.asc, b.m.xasc, b.m.desc, b.m.xdesc, b.m.upper, b.m.mid, b.m.hinter, b.m.vinter, b.m.gap, b.m.vlw, b.m.vlg>>,
           ng |-> NG(b), fine |-> MetricsOK_(b.m)]
SetObs(ss, made) == [h \in 1..made |-> LET i == SetAt(ss, h) IN IF i = 0 THEN [ranges |-> <<>>, list |-> <<>>] ELSE [ranges |-> ss[i].ranges, list |-> ss[i].list]]

(* The font it builds: as a value of the format, one way of encoding it        *)
CustomWords(b) == UNION {SeqSet(b.settings[i].opts) : i \in 1..Len(b.settings)}
NamesOf(b) == {b.glyphs[i].name : i \in {j \in 1..NG(b) : b.glyphs[j].name # <<>>}}
DupNames(b) == Cardinality(NamesOf(b)) # Cardinality({i \in 1..NG(b) : b.glyphs[i].name # <<>>})
SetBytes(ss, w) == SeqSum([i \in 1..Len(ss) |-> 2 + (w + 1) * Len(ss[i].ranges) + w * Len(ss[i].list)])
(* builtin: the predefined words.  "maybe": so many words that it depends on   *)
(* which of the predefined ones can still be used                              *)
WordsFit(b, builtin) == LET all == CustomWords(b)
                        IN IF Cardinality(all) <= 255 THEN "ok" ELSE IF Cardinality(all \ builtin) > 255 THEN "err" ELSE "maybe"
(* Sizes.  A table of masks, mappings or rules holds less than 16 MiB, a font  *)
(* at most 32 MiB.  Where the encoding is not told there are bounds for it.    *)
TableMax == 16777215
FontMax == 33554432
SumOf(s, Of(_)) == FoldLeft(LAMBDA t, x : t + Of(x), 0, s)
Contiguous(gs) == \A i \in 2..Len(gs) : gs[i] = gs[1] + i - 1
GroupMin(g) == LET n == Len(g.glyphs) IN IF n = 1 THEN 3 ELSE IF Contiguous(g.glyphs) THEN 4 ELSE 2 + 2 * n
GroupMax(g) == LET n == Len(g.glyphs) IN IF n = 1 THEN 3 ELSE 2 + 2 * n
MapMin(b) == SumOf(b.map, LAMBDA x : IF x.sw = 255 THEN 3 ELSE 1 + SumOf(x.groups, GroupMin))
MapMax(b) == SumOf(b.map, LAMBDA x : IF x.sw = 255 THEN 4 ELSE 1 + SumOf(x.groups, GroupMax))
NoiseMin == 60000     \* 255 * 255 pixels of more than 7.9 bits each
PixelMax == 8         \* a pixel as an operation of its own
MaskMin(b) == NoiseMin * b.noise + NG(b)
MaskMax(b) == 65025 * PixelMax * b.noise + SumOf(b.glyphs, LAMBDA g : 4 + (PixelMax + 8) * Cardinality(g.img))
URuleMin(b) == SumOf(b.urules, LAMBDA r : 9 + 4 * Len(r.seq))
URuleMax(b) == SumOf(b.urules, LAMBDA r : 11 + 5 * Len(r.seq))
GRuleMin(b) == SumOf(b.grules, LAMBDA r : 6 + 2 * Len(r.out) + Len(r.els))
GRuleMax(b) == SumOf(b.grules, LAMBDA r : 8 + 2 * Len(r.out) + 3 * Len(r.els))
TooBig(b) == \/ MaskMin(b) > TableMax \/ MapMin(b) > TableMax \/ URuleMin(b) > TableMax \/ GRuleMin(b) > TableMax
             \/ MaskMin(b) + MapMin(b) + URuleMin(b) + GRuleMin(b) + 5 * (Len(b.kern) + Len(b.vkern)) > FontMax
(* everything else of a font takes less than 8 MiB *)
NotTooBig(b) == /\ MaskMax(b) <= TableMax /\ MapMax(b) <= TableMax /\ URuleMax(b) <= TableMax /\ GRuleMax(b) <= TableMax
                /\ MaskMax(b) + MapMax(b) + URuleMax(b) + GRuleMax(b) + 5 * (Len(b.kern) + Len(b.vkern)) <= FontMax - 8388608
BuildFails(b) ==
  \/ TooBig(b)
  \/ NG(b) = 0 \/ ~MetricsOK_(b.m) \/ DupNames(b)
  \/ Len(b.map) > MaxGlyphs
  \/ \E i \in 1..Len(b.rsets) : \E k \in 1..Len(b.rsets[i].ranges) : b.rsets[i].ranges[k][2] - b.rsets[i].ranges[k][1] > 255
  \/ \E i \in 1..Len(b.gsets) : \E k \in 1..Len(b.gsets[i].ranges) : b.gsets[i].ranges[k][2] - b.gsets[i].ranges[k][1] \notin 0..255
  \/ SetBytes(b.rsets, 4) > 65535 \/ SetBytes(b.gsets, 2) > 65535
  \/ \E i \in 1..Len(b.grules) : \E k \in 1..Len(b.grules[i].els) : b.grules[i].els[k].set /\ SetAt(b.gsets, b.grules[i].els[k].v) = 0
BuildOutcome(b, builtin) == IF BuildFails(b) THEN {"err"}
                            ELSE LET w == WordsFit(b, builtin) IN IF w = "maybe" \/ (w = "ok" /\ ~NotTooBig(b)) THEN {"ok", "err"} ELSE {w}

MainDye == <<[name |-> <<109, 97, 105, 110>>, colors |-> <<<<255>>>>]>>
Names(b) == LET named == SelectSeq([i \in 1..NG(b) |-> i], LAMBDA i : b.glyphs[i].name # <<>>)
            IN [k \in 1..Len(named) |-> <<b.glyphs[named[k]].name, named[k] - 1>>]
KernTold(b, ks) == [i \in 1..Len(ks) |-> <<ks[i].a - 1, ks[i].c - 1, PairValue(b, ks[i])>>]
(* the parts every encoding has in common; names and kernings in any order *)
Core(b) == [header |-> [fmt |-> 2, id |-> b.id, major |-> b.major, minor |-> b.minor, dates |-> b.dates,
                        name |-> b.name, family |-> b.family, author |-> b.author, about |-> b.about],
            metrics |-> [ng |-> NG(b), vert |-> b.m.vert, rest |-> Obs(b).m],
            dyes |-> IF b.dyes = <<>> /\ b.pals = <<>> THEN MainDye ELSE b.dyes, palettes |-> b.pals,
            names |-> Names(b),
            placements |-> [i \in 1..NG(b) |-> IF b.m.vert THEN b.glyphs[i].place ELSE <<b.glyphs[i].place[1], 0, 0, 0>>],
            kern |-> KernTold(b, b.kern), vkern |-> KernTold(b, b.vkern)]
ImagesOf(b) == [i \in 1..NG(b) |-> b.glyphs[i].img]
Ix(gs) == [k \in 1..Len(gs) |-> gs[k] - 1]
(* looking up a code point *)
Resolve(b, cp, vals) ==
  LET i == MapAt(b, cp)
  IN IF i = 0 THEN NotFound
     ELSE LET x == b.map[i]
              c == IF x.sw >= 254 THEN 0 ELSE CaseOf(b.switches[x.sw + 1], NOpts(b), vals)
              g == x.groups[c + 1]
          IN [found |-> TRUE, size |-> Len(g.glyphs), flags |-> IF Len(g.glyphs) = 1 THEN 0 ELSE g.flags, case |-> c, glyphs |-> Ix(g.glyphs)]
(* reading a rule: the elements of one block, in fragments of sets and elements *)
RECURSIVE Eat(_, _, _, _)
Eat(d, i, els, w) ==    \* 0 when the data says something else
  IF els = <<>> THEN i
  ELSE IF i > Len(d) THEN 0
  ELSE LET ns == d[i] \div 16
           ne == d[i] % 16
           k == i + 1 + ns
       IN IF ns + ne = 0 \/ ns + ne > Len(els) \/ k + ne * w > Len(d) + 1 THEN 0
          ELSE IF (\A j \in 1..ns : els[j] = [set |-> TRUE, v |-> d[i + j]])
                  /\ (\A j \in 1..ne : els[ns + j] = [set |-> FALSE, v |-> IF w = 4 THEN L32(d, k + (j - 1) * 4) ELSE L16(d, k + (j - 1) * 2)])
               THEN Eat(d, k + ne * w, SubSeq(els, ns + ne + 1, Len(els)), w)
               ELSE 0
EatBlock(d, i, els, w) == IF i = 0 THEN 0
                          ELSE IF els = <<>> THEN (IF i <= Len(d) /\ d[i] = 0 THEN i + 1 ELSE 0)
                          ELSE Eat(d, i, els, w)
RuleSays(r, w, lens, els, out) ==
  /\ r.lens = <<255, lens[1], lens[2], lens[3], lens[1] + lens[2] + lens[3], Len(out)>>
  /\ r.out = out
  /\ LET d == r.data
         h == SubSeq(els, 1, lens[1])
         m == SubSeq(els, lens[1] + 1, lens[1] + lens[2])
         t == SubSeq(els, lens[1] + lens[2] + 1, Len(els))
     IN EatBlock(d, EatBlock(d, EatBlock(d, 6 + w * Len(out), h, w), m, w), t, w) = Len(d) + 1
SetSays(r, ranges, list) == r.ranges = ranges /\ r.list = list /\ r.ok = <<TRUE, TRUE>> /\ r.errs = <<FALSE, FALSE>>
SetNumber(b, h) == SetAt(b.gsets, h) - 1
NonZero(ks) == Cardinality({i \in 1..Len(ks) : ks[i][3] # 0})
(* what the accessors of the built font say (d) of what the builder was told *)
Says(b, d, args, size) ==
  LET v == Core(b)
  IN /\ HeaderOK(v, d) /\ MetricsOK(v, d, size) /\ ColorsOK(v, d) /\ GlyphsOK(v, ImagesOf(b), d, args)
     /\ d.settings.count = Len(b.settings) /\ d.settings.beyond = 0
     /\ d.settings.list = [i \in 1..Len(b.settings) |-> [key |-> i - 1, name |-> b.settings[i].name, opts |-> b.settings[i].opts]]
     /\ d.mapping.switches = Len(b.switches) /\ d.mapping.entries = Len(b.map)
     /\ d.mapping.lookups = [i \in 1..Len(args.lookups) |-> Resolve(b, args.lookups[i].cp, args.lookups[i].vals)]
     /\ d.rewrites.nconds = 0
     /\ Len(d.rewrites.rsets) = Len(b.rsets) /\ Len(d.rewrites.gsets) = Len(b.gsets)
     /\ \A i \in 1..Len(b.rsets) : SetSays(d.rewrites.rsets[i], b.rsets[i].ranges, b.rsets[i].list)
     /\ \A i \in 1..Len(b.gsets) : SetSays(d.rewrites.gsets[i], [k \in 1..Len(b.gsets[i].ranges) |-> Ix(b.gsets[i].ranges[k])], Ix(b.gsets[i].list))
     /\ Len(d.rewrites.urules) = Len(b.urules) /\ Len(d.rewrites.grules) = Len(b.grules)
     /\ \A i \in 1..Len(b.urules) : LET r == b.urules[i]
                                   IN RuleSays(d.rewrites.urules[i], 4, <<0, Len(r.seq), 0>>, [k \in 1..Len(r.seq) |-> [set |-> FALSE, v |-> r.seq[k]]], <<r.out>>)
     /\ \A i \in 1..Len(b.grules) : LET r == b.grules[i]
                                   IN RuleSays(d.rewrites.grules[i], 2, r.lens,
                                               [k \in 1..Len(r.els) |-> IF r.els[k].set THEN [set |-> TRUE, v |-> SetNumber(b, r.els[k].v)] ELSE [set |-> FALSE, v |-> r.els[k].v - 1]],
                                               Ix(r.out))
     /\ d.kern.n \in {Len(v.kern), NonZero(v.kern)} /\ d.kern.nv \in {Len(v.vkern), NonZero(v.vkern)}
     /\ d.kern.h = [i \in 1..Len(args.kerns) |-> KernOf(v.kern, args.kerns[i][1], args.kerns[i][2])]
     /\ d.kern.v = [i \in 1..Len(args.kerns) |-> KernOf(v.vkern, args.kerns[i][1], args.kerns[i][2])]
     /\ d.valid
=============================================================================
