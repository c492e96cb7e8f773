----------------------------- MODULE MC_Builder -----------------------------
(* The builder driven through all sequences of operations of a theme, up to a  *)
(* depth.  Whatever state it gets into, either it refuses to build, or what it *)
(* was told has an encoding: a font of the format that decodes to it.          *)
EXTENDS Builder, SequencesExt, FiniteSetsExt
CONSTANTS Themes, Depth
VARIABLES theme, b, n
ID0 == <<181, 233, 172, 104, 36, 240, 87, 19>>
Today == <<2024, 2, 29>>
R == INSTANCE Raster WITH Ctrls <- {}, Vals <- {}, Moves <- {}, Alphas <- {}, MaxOps <- 0, s <- <<>>, box <- <<>>, nops <- 0

-----------------------------------------------------------------------------
(* The operations of every theme                                               *)
Op(o) == [op |-> o]
Glyph(px, r) == [op |-> "b.glyph", rect |-> r, outer |-> r, fill |-> 0, px |-> px]
Dot == Glyph(<<<<0, 0, 255>>, <<0, 1, 255>>>>, <<0, 0, 1, 2>>)    \* drawn by <<96, 1, 2>>
DotCode == <<96, 1, 2>>
Blank == Glyph(<<>>, <<0, 0, 3, 3>>)
Text0 == <<65, 66>>
Sets == {[op |-> "b.setting", s |-> s, opts |-> o] : <<s, o>> \in {<<<<115>>, <<<<97>>, <<98>>>>>>, <<<<116>>, <<<<98>>>>>>, <<<<115>>, <<>>>>, <<<<45>>, <<<<97>>>>>>}}
        \cup {[op |-> "b.switch", keys |-> k] : k \in {<<0>>, <<0, 1>>, <<1, 1>>, <<>>}}
        \cup {[op |-> "b.map", cp |-> 65, g |-> g] : g \in {0, 2}} \cup {[op |-> "b.map", cp |-> 31, g |-> 1]}
        \cup {[op |-> "b.mapg", cp |-> 65, flags |-> 3, gs |-> g] : g \in {<<2, 1>>, <<1>>}}
        \cup {[op |-> "b.maps", cp |-> 65, sw |-> w, gs |-> <<1, 2>>] : w \in {0, 1, 254}}
        \cup {[op |-> "b.mapsw", cp |-> 32, sw |-> w, groups |-> g, flags |-> f] :
                <<w, g, f>> \in {<<0, <<<<2>>, <<1, 2>>>>, <<9>>>>, <<0, <<<<2>>, <<1, 2>>>>, <<>>>>, <<1, <<<<2, 2>>, <<1>>>>, <<0>>>>, <<0, <<<<1>>, <<>>>>, <<>>>>}}
Rules == {Op("b.gset"), Op("b.rset")}
         \cup {[op |-> o, h |-> h] : o \in {"b.gsetrm", "b.rsetrm"}, h \in {1, 2}}
         \cup {[op |-> o, h |-> 1, a |-> a, c |-> c] : o \in {"b.grange", "b.ungrange"}, <<a, c>> \in {<<1, 2>>, <<2, 1>>}}
         \cup {[op |-> o, h |-> 1, a |-> a, c |-> c] : o \in {"b.rrange", "b.unrrange"}, <<a, c>> \in {<<65, 70>>, <<65, 400>>, <<3, 2>>}}
         \cup {[op |-> o, h |-> 1, v |-> 2] : o \in {"b.glist", "b.unglist", "b.rlist", "b.unrlist"}}
         \cup {[op |-> "b.urule", v |-> 66, seq |-> q] : q \in {<<65>>, <<>>}}
         \cup {[op |-> "b.grule", lens |-> x[1], els |-> x[2], out |-> x[3]] :
                 x \in {<<<<0, 1, 0>>, <<1>>, <<2>>>>, <<<<1, 1, 1>>, <<-1, 2, -2>>, <<1>>>>, <<<<0, 2, 0>>, <<-1, -1>>, <<1, 2>>>>,
                        <<<<0, 1, 0>>, <<1>>, <<1, 2>>>>, <<<<0, 1, 1>>, <<1>>, <<1>>>>, <<<<1, 0, 0>>, <<1>>, <<>>>>}}
Nm(c) == <<1, c>>
Edition1 == <<0, 2, 0>> \o Nm(65) \o Nm(32) \o <<7, 254>> \o <<2, 0, 0, 0, 0, 1, 0, 1, 0, 1, 0, 0, 0, 2, 0>> \o <<1, 0, 0, 0, 0, 0, 0, 2, 0>> \o <<0>>
Edition2 == <<1>> \o Nm(66) \o <<9, 0>> \o <<1, 0>> \o Nm(65) \o <<3>> \o <<0, 0, 0>> \o <<1, 0, 0, 1, 0, 1, 0, 1, 0>> \o <<0>>
Editions == {Edition1, Edition2, SubSeq(Edition1, 1, Len(Edition1) - 1), Append(Edition2, 0),
             <<0, 1, 0>> \o Nm(65) \o <<5>> \o <<1, 0, 0, 0, 0, 0, 0, 2, 0>> \o <<0, 0, 0, 0>>,    \* an unknown class
             <<0, 1, 0>> \o Nm(65) \o <<5>> \o <<1, 0, 0, 2, 0, 0, 0, 1, 0>> \o <<0, 0, 0, 0>>,    \* an unknown glyph
             <<0, 0, 0, 0, 0, 0, 0, 0, 0, 1>>}                                                     \* an unknown condition
Kerns == {[op |-> "b.kern", a |-> x[1], c |-> x[2], v |-> x[3]] : x \in {<<1, 2, 5>>, <<1, 2, 0>>, <<2, 1, -128>>, <<1, 2, 127>>, <<0, 1, 3>>, <<2, 2, 1>>}}
         \cup {[op |-> "b.edition", data |-> d, whole |-> TRUE] : d \in Editions}
         \cup {[op |-> "b.edition", data |-> Edition1, whole |-> FALSE, damage |-> "cut", at |-> 20], Op("b.clear"),
               [op |-> "b.vert", v |-> TRUE], Dot}
Head_ == {[op |-> "b.str", f |-> f, s |-> s] : f \in {"name", "about"}, s \in {<<>>, Text0, <<195, 169>>, <<195>>, <<10>>}}
         \cup {[op |-> "b.date", i |-> i, date |-> d] : i \in {1, 3}, d \in {<<2024, 2, 29>>, <<2023, 2, 29>>}}
         \cup {[op |-> "b.raise", k |-> k] : k \in {"major", "minor"}} \cup {[op |-> "b.version", major |-> 3, minor |-> 65000]}
         \cup {[op |-> "b.u8", f |-> x[1], v |-> x[2]] : x \in {<<"asc", 1>>, <<"asc", 255>>, <<"xasc", 9>>, <<"upper", 10>>, <<"mid", 0>>, <<"vinter", 2>>, <<"vlw", 2>>, <<"vlg", 0>>, <<"mono", 1>>}}
         \cup {[op |-> "b.vert", v |-> x] : x \in BOOLEAN}
Glyphs_ == {Dot, Blank, Glyph(<<<<0, -10, 255>>>>, <<0, -10, 1, 0>>), Glyph(<<<<1, 0, 1>>>>, <<0, 0, 2, 2>>)}
           \cup {[op |-> "b.gname", g |-> x[1], s |-> x[2]] : x \in {<<1, <<97>>>>, <<2, <<97>>>>, <<2, <<97, 45, 98>>>>, <<1, <<97, 45>>>>, <<0, <<98>>>>}}
           \cup {[op |-> "b.place", g |-> g, v |-> <<255, 1, 2, 3>>] : g \in {0, 1}}
           \cup {[op |-> "b.u8", f |-> x[1], v |-> x[2]] : x \in {<<"asc", 2>>, <<"desc", 1>>, <<"desc", 5>>, <<"mono", 1>>}}
           \cup {[op |-> "b.vert", v |-> TRUE]}
           \cup {[op |-> o, s |-> s, cols |-> c] : <<o, s, c>> \in {<<"b.dye", Text0, <<<<7>>>>>>, <<"b.pal", Text0, <<<<1, 2, 3, 4>>>>>>, <<"b.pal", <<255>>, <<<<1, 2, 3, 4>>, <<5, 6, 7, 8>>>>>>,
                                                                    <<"b.dye", <<66>>, <<>>>>, <<"b.dye", <<67>>, [i \in 1..254 |-> <<i>>]>>}}
Pool(t) == CASE t = "map" -> Sets [] t = "rules" -> Rules [] t = "kern" -> Kerns [] t = "head" -> Head_ [] t = "glyphs" -> Glyphs_
Start(t) == IF t = "glyphs" THEN <<>> ELSE IF t = "head" THEN <<Dot>> ELSE <<Dot, Blank>>
RECURSIVE After(_, _)
After(x, es) == IF es = <<>> THEN x ELSE After(Apply(x, Head(es), Today).b, Tail(es))

Init == theme \in Themes /\ b = After(New(ID0, Today), Start(theme)) /\ n = 0
(* a refused operation changes nothing (a refused edition leaves none) *)
Refusal(a) == a.out \cap {"ok", "true"} = {} => a.b \in {b, Clear(b)}
Do(e) == LET a == Apply(b, e, Today) IN b' = a.b /\ Assert(Refusal(a), e)
Next == n < Depth /\ n' = n + 1 /\ UNCHANGED theme /\ \E e \in Pool(theme) : Do(e)

-----------------------------------------------------------------------------
(* One way of encoding what the builder was told                               *)
RECURSIVE Before(_, _)
Before(x, y) == IF y = <<>> THEN FALSE ELSE IF x = <<>> THEN TRUE
                ELSE IF Head(x) # Head(y) THEN Head(x) < Head(y) ELSE Before(Tail(x), Tail(y))
Words == SetToSortSeq(CustomWords(b), Before)
WordAt(w) == Index(Words, w) - 1
EncSet(s, wide) == LET w(v) == IF wide THEN F!W32(v) ELSE F!W16(v - 1)
                   IN <<Len(s.ranges)>> \o Concat([i \in 1..Len(s.ranges) |-> w(s.ranges[i][1]) \o <<s.ranges[i][2] - s.ranges[i][1]>>])
                      \o <<Len(s.list)>> \o Concat([i \in 1..Len(s.list) |-> w(s.list[i])])
EncEl(x) == IF x.set THEN <<16, SetNumber(b, x.v)>> ELSE <<1>> \o F!W16(x.v - 1)
EncEls(els) == IF els = <<>> THEN <<0>> ELSE Concat([i \in 1..Len(els) |-> EncEl(els[i])])
EncG(r) == <<255>> \o r.lens \o <<Len(r.out)>> \o Concat([i \in 1..Len(r.out) |-> F!W16(r.out[i] - 1)])
           \o EncEls(SubSeq(r.els, 1, r.lens[1])) \o EncEls(SubSeq(r.els, r.lens[1] + 1, r.lens[1] + r.lens[2]))
           \o EncEls(SubSeq(r.els, r.lens[1] + r.lens[2] + 1, Len(r.els)))
EncU(r) == <<255, 0, Len(r.seq), 0, 1>> \o F!W32(r.out) \o <<0>> \o Concat([i \in 1..Len(r.seq) |-> <<1>> \o F!W32(r.seq[i])]) \o <<0>>
EncMap(x) == IF x.sw = 255 THEN <<255>> \o F!W16(x.groups[1].glyphs[1] - 1)
             ELSE EncEntry(x.sw, [i \in 1..Len(x.groups) |-> [glyphs |-> Ix(x.groups[i].glyphs), range |-> FALSE, flags |-> x.groups[i].flags]])
Code(img) == IF img = {} THEN <<>> ELSE DotCode
PairLess(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
Sorted(ks) == SetToSortSeq(SeqSet(ks), PairLess)
Value == LET v == Core(b) IN
  [v EXCEPT !.names = SetToSortSeq(SeqSet(@), LAMBDA x, y : Before(x[1], y[1])), !.kern = Sorted(@), !.vkern = Sorted(@)]
  @@ [masks |-> [i \in 1..NG(b) |-> Code(b.glyphs[i].img)], words |-> Words,
      settings |-> [i \in 1..Len(b.settings) |-> [name |-> b.settings[i].name, opts |-> [k \in 1..Len(b.settings[i].opts) |-> WordAt(b.settings[i].opts[k])]]],
      switches |-> b.switches, mapping |-> LET m == SetToSortSeq(SeqSet(b.map), LAMBDA x, y : x.cp < y.cp) IN [i \in 1..Len(m) |-> <<m[i].cp, EncMap(m[i])>>],
      conds |-> <<>>, rsets |-> [i \in 1..Len(b.rsets) |-> EncSet(b.rsets[i], TRUE)], gsets |-> [i \in 1..Len(b.gsets) |-> EncSet(b.gsets[i], FALSE)],
      urules |-> [i \in 1..Len(b.urules) |-> EncU(b.urules[i])], grules |-> [i \in 1..Len(b.grules) |-> EncG(b.grules[i])]]
Drawable == \A i \in 1..NG(b) : b.glyphs[i].img \in {{}, R!RunCode(DotCode).s.img}
Builds == "ok" \in BuildOutcome(b, {})
(* refused exactly when there is no font to say it *)
Encodable == Builds => LET v == Value
                           d == F!Plain(F!Write(v))
                       IN F!Accepts(d) /\ F!View(d) = v
RECURSIVE AllVals(_)
AllVals(ns) == IF ns = <<>> THEN {<<>>} ELSE {<<i>> \o t : i \in 0..Head(ns) - 1, t \in AllVals(Tail(ns))}
(* the font says what the builder was told *)
SaysSo == Builds =>
  LET v == Value
      t == Tables(v)
  IN /\ \A cp \in {31, 32, 65} : \A vals \in AllVals(NOpts(b)) : Lookup(t, cp, vals) = Resolve(b, cp, vals)
     /\ \A i \in 1..Len(b.gsets) : SetSays(RSet(v.gsets[i], 2, -1), [k \in 1..Len(b.gsets[i].ranges) |-> Ix(b.gsets[i].ranges[k])], Ix(b.gsets[i].list))
     /\ \A i \in 1..Len(b.rsets) : SetSays(RSet(v.rsets[i], 4, -1), b.rsets[i].ranges, b.rsets[i].list)
     /\ \A i \in 1..Len(b.grules) : LET r == b.grules[i] IN
          RuleSays(RRule(v.grules[i], 2), 2, r.lens, [k \in 1..Len(r.els) |-> IF r.els[k].set THEN [set |-> TRUE, v |-> SetNumber(b, r.els[k].v)] ELSE [set |-> FALSE, v |-> r.els[k].v - 1]], Ix(r.out))
     /\ \A i \in 1..Len(b.urules) : LET r == b.urules[i] IN
          RuleSays(RRule(v.urules[i], 4), 4, <<0, Len(r.seq), 0>>, [k \in 1..Len(r.seq) |-> [set |-> FALSE, v |-> r.seq[k]]], <<r.out>>)
     /\ (Drawable => \A i \in 1..NG(b) : R!RunCode(v.masks[i]).s.img = b.glyphs[i].img)
(* nothing refers to what does not exist; nothing exceeds what can be counted *)
Sound == /\ \A i \in 1..Len(b.map) : LET x == b.map[i] IN
              /\ x.cp >= 32 /\ Len(x.groups) = (IF x.sw >= 254 THEN 1 ELSE CasesOf(b, x.sw))
              /\ (x.sw < 254 => x.sw < Len(b.switches))
              /\ \A k \in 1..Len(x.groups) : Len(x.groups[k].glyphs) \in 1..128 /\ AllGlyphs(b, x.groups[k].glyphs)
         /\ \A i, k \in 1..Len(b.map) : b.map[i].cp = b.map[k].cp => i = k
         /\ \A i \in 1..Len(b.switches) : \A k \in SeqSet(b.switches[i]) : k < Len(b.settings)
         /\ ColorCount(b) <= 255
         /\ \A ks \in {b.kern, b.vkern} : \A i, k \in 1..Len(ks) : (ks[i].a = ks[k].a /\ ks[i].c = ks[k].c) => i = k
         /\ \A ks \in {b.kern, b.vkern} : \A i \in 1..Len(ks) : AllGlyphs(b, <<ks[i].a, ks[i].c>>) /\ ks[i].class \in 0..Len(b.classes) /\ PairValue(b, ks[i]) \in -128..127
         /\ \A h \in 1..b.made.gset : LET i == SetAt(b.gsets, h) IN i = 0 \/ \A k \in SeqSet(b.gsets[i].list) : IsGlyph(b, k)
         /\ \A i \in 1..NG(b) : b.glyphs[i].name = <<>> \/ BasicName(b.glyphs[i].name)
         /\ Text(b.name) /\ Text(b.about) /\ b.name # <<>>
         /\ \A i \in 1..3 : Cal!Valid(b.dates[i][1], b.dates[i][2], b.dates[i][3])
=============================================================================
