------------------------------ MODULE Mapping -------------------------------
(* Settings, mapping switches and code point mappings of a font.  A font is a  *)
(* record of its tables, given byte by byte where the format has an encoding:  *)
(*   nopts     number of options of every setting                              *)
(*   switches  the list of settings of every switch                            *)
(*   mapping   pairs <<code point, entry bytes>>                               *)
(*   conds     encoded rewrite conditions (module Cond)                        *)
EXTENDS Cond

(* --- switches: mixed radix numbers, the last setting is the least significant --- *)
RECURSIVE NumCases(_, _)
NumCases(sw, nopts) == IF sw = <<>> THEN 1 ELSE nopts[Head(sw) + 1] * NumCases(Tail(sw), nopts)
RECURSIVE CaseOf(_, _, _)
CaseOf(sw, nopts, vals) == IF sw = <<>> THEN 0
                           ELSE vals[Head(sw) + 1] * NumCases(Tail(sw), nopts) + CaseOf(Tail(sw), nopts, vals)

(* --- groups --- *)
LE16(d, i) == d[i] + 256 * d[i + 1]
GroupSize(d, i) == (d[i] % 128) + 1
IsRange(d, i) == d[i] >= 128
GroupLen(d, i) == 1 + (IF GroupSize(d, i) > 1 THEN 1 ELSE 0) + (IF IsRange(d, i) THEN 2 ELSE 2 * GroupSize(d, i))
GroupAt(d, i) == LET n == GroupSize(d, i)
                     j == IF n > 1 THEN i + 2 ELSE i + 1
                 IN [size |-> n, flags |-> IF n > 1 THEN d[i + 1] ELSE 0,
                     glyphs |-> [k \in 1..n |-> IF IsRange(d, i) THEN LE16(d, j) + k - 1 ELSE LE16(d, j + 2 * (k - 1))]]
RECURSIVE NthGroup(_, _, _)
NthGroup(d, i, n) == IF n = 0 THEN GroupAt(d, i) ELSE NthGroup(d, i + GroupLen(d, i), n - 1)

Entry(font, cp) == CHOOSE e \in {font.mapping[i] : i \in 1..Len(font.mapping)} : e[1] = cp
HasEntry(font, cp) == \E i \in 1..Len(font.mapping) : font.mapping[i][1] = cp

NotFound == [found |-> FALSE, size |-> 0, flags |-> 0, case |-> 0, glyphs |-> <<>>]
(* what looking up a code point reports under the given setting values *)
Lookup(font, cp, vals) ==
  IF ~HasEntry(font, cp) THEN NotFound
  ELSE LET d == Entry(font, cp)[2]
       IN IF d[1] = 255
          THEN [found |-> TRUE, size |-> 1, flags |-> 0, case |-> 0, glyphs |-> <<LE16(d, 2)>>]
          ELSE LET c == IF d[1] = 254 THEN 0 ELSE CaseOf(font.switches[d[1] + 1], font.nopts, vals)
                   g == NthGroup(d, 2, c)
               IN [found |-> TRUE, size |-> g.size, flags |-> g.flags, case |-> c, glyphs |-> g.glyphs]
SwitchOf(font, cp) == IF HasEntry(font, cp) THEN Entry(font, cp)[2][1] ELSE 255

(* --- encoding, for the model --- *)
U16(v) == <<v % 256, v \div 256>>
EncGroup(g) == LET n == Len(g.glyphs)
               IN <<(n - 1) + (IF g.range THEN 128 ELSE 0)>> \o (IF n > 1 THEN <<g.flags>> ELSE <<>>)
                  \o (IF g.range THEN U16(g.glyphs[1]) ELSE Concat([i \in 1..n |-> U16(g.glyphs[i])]))
EncEntry(sw, groups) == <<sw>> \o Concat([i \in 1..Len(groups) |-> EncGroup(groups[i])])
=============================================================================
