------------------------------- MODULE Bounds -------------------------------
(* What a font does not define is refused.  A font defines things of several   *)
(* kinds, each under keys counted from zero (v is the record of Format!View).  *)
(* Asking for one of them answers; asking under any other key is refused (-1), *)
(* or answered neutrally where that is the contract (no options, value 0).     *)
(* A refused question changes nothing.                                         *)
EXTENDS Report
Kinds == {"dye", "eachdye", "palette", "eachpalette", "advance", "place", "mask", "nopts", "opt", "switch", "cond",
          "urule", "grule", "rset", "gset", "choice", "set", "get"}
Num(v, kind) == CASE kind \in {"dye", "eachdye"} -> Len(v.dyes)
                  [] kind \in {"palette", "eachpalette"} -> Len(v.palettes)
                  [] kind \in {"advance", "place", "mask"} -> v.metrics.ng
                  [] kind \in {"nopts", "opt", "set", "get"} -> Len(v.settings)
                  [] kind = "switch" -> Len(v.switches)
                  [] kind = "cond" -> Len(v.conds)
                  [] kind = "urule" -> Len(v.urules)
                  [] kind = "grule" -> Len(v.grules)
                  [] kind = "rset" -> Len(v.rsets)
                  [] kind = "gset" -> Len(v.gsets)
Refused == -1
Zeros(v) == [i \in 1..Len(v.settings) |-> 0]
Found(v, cp) == Lookup(Tables(v), cp, Zeros(v))
(* the k-th thing (counted from one) of a kind, when there is one; j only matters for options and choices *)
Thing(v, kind, k, j) ==
  CASE kind \in {"dye", "eachdye"} -> Len(v.dyes[k].colors)
    [] kind \in {"palette", "eachpalette"} -> Len(v.palettes[k].colors)
    [] kind \in {"advance", "place"} -> v.placements[k][1]
    [] kind = "nopts" -> Len(v.settings[k].opts)
    [] kind = "opt" -> IF j < Len(v.settings[k].opts) THEN 0 ELSE Refused
    [] kind = "urule" -> Len(v.urules[k])
    [] kind = "grule" -> Len(v.grules[k])
    [] kind = "rset" -> Len(v.rsets[k])
    [] kind = "gset" -> Len(v.gsets[k])
    [] kind \in {"mask", "switch", "cond", "set", "get"} -> 0     \* what they are is decided elsewhere
(* pure questions *)
Answer(v, kind, i, j) ==
  IF kind = "choice" THEN LET g == Found(v, i) IN IF g.found /\ j < g.size THEN g.glyphs[j + 1] ELSE Refused
  ELSE IF i < Num(v, kind) THEN Thing(v, kind, i + 1, j)
  ELSE IF kind \in {"nopts", "get"} THEN 0 ELSE Refused
(* setting values: sv[i + 1] is what setting i was set to last *)
AnswerNow(v, sv, kind, i, j) == IF kind = "get" /\ i < Len(sv) THEN sv[i + 1] ELSE Answer(v, kind, i, j)
After(v, sv, kind, i, j) == IF kind = "set" /\ i < Len(sv) THEN [sv EXCEPT ![i + 1] = j] ELSE sv
(* a whole session of questions, each <<kind, i, j>>, starting with all settings at zero *)
LastSet(asks, k) == LET S == {x \in 1..(k - 1) : asks[x][1] = "set" /\ asks[x][2] = asks[k][2]}
                    IN IF S = {} THEN 0 ELSE asks[CHOOSE x \in S : \A y \in S : y <= x][3]
Answers(v, asks) == [k \in 1..Len(asks) |->
                       IF asks[k][1] = "get" /\ asks[k][2] < Len(v.settings) THEN LastSet(asks, k)
                       ELSE Answer(v, asks[k][1], asks[k][2], asks[k][3])]
=============================================================================
