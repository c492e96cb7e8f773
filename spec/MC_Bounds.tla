------------------------------ MODULE MC_Bounds ------------------------------
(* Sessions of questions to small fonts, well beyond what they define.  The    *)
(* reference is a set: the keys the font defines, listed outright.             *)
EXTENDS Bounds
CONSTANTS MaxN, MaxAsks
VARIABLES font, sv, asks, got
vars == <<font, sv, asks, got>>
Colors(n) == [i \in 1..n |-> [colors |-> [k \in 1..i |-> 0]]]
Data(n) == [i \in 1..n |-> [k \in 1..(i + 2) |-> 1]]
Settings(n) == [i \in 1..n |-> [name |-> <<97>>, opts |-> [k \in 1..i |-> 0]]]
Font(n, m) == [dyes |-> Colors(n), palettes |-> Colors(m), metrics |-> [ng |-> n + 1], placements |-> [i \in 1..(n + 1) |-> <<i, 0, 0, 0>>],
               settings |-> Settings(m), switches |-> IF m = 0 THEN <<>> ELSE [i \in 1..n |-> <<m - 1>>], conds |-> Data(n),
               urules |-> Data(m), grules |-> Data(n), rsets |-> Data(n), gsets |-> Data(m),
               mapping |-> <<<<1, <<255, 0, 0>>>>, <<2, <<254, 1, 0, 0, 0, 0, 0>>>>, <<3, <<254, 128 + 2, 0, 0, 0>>>>>>]
Defined(f) ==
  LET upto(kind, n) == {<<kind, i, j>> : i \in 0..(n - 1), j \in 0..MaxN}
  IN upto("dye", Len(f.dyes)) \cup upto("eachdye", Len(f.dyes)) \cup upto("palette", Len(f.palettes)) \cup upto("eachpalette", Len(f.palettes))
     \cup upto("advance", f.metrics.ng) \cup upto("place", f.metrics.ng) \cup upto("mask", f.metrics.ng)
     \cup upto("nopts", Len(f.settings)) \cup upto("get", Len(f.settings)) \cup upto("set", Len(f.settings))
     \cup {a \in {<<"opt", i, j>> : i \in 0..(Len(f.settings) - 1), j \in 0..MaxN} : a[3] <= a[2]}
     \cup upto("switch", Len(f.switches)) \cup upto("cond", Len(f.conds)) \cup upto("urule", Len(f.urules)) \cup upto("grule", Len(f.grules))
     \cup upto("rset", Len(f.rsets)) \cup upto("gset", Len(f.gsets))
     \cup {<<"choice", 1, 0>>, <<"choice", 2, 0>>, <<"choice", 2, 1>>, <<"choice", 3, 0>>, <<"choice", 3, 1>>, <<"choice", 3, 2>>}
Init == /\ font \in {Font(n, m) : n \in 0..MaxN, m \in 0..MaxN}
        /\ sv = Zeros(font) /\ asks = <<>> /\ got = <<>>
Ask(kind, i, j) == /\ asks' = Append(asks, <<kind, i, j>>)
                   /\ got' = Append(got, AnswerNow(font, sv, kind, i, j))
                   /\ sv' = After(font, sv, kind, i, j) /\ UNCHANGED font
Next == \/ Len(asks) < MaxAsks /\ \E kind \in Kinds, i \in 0..(MaxN + 1), j \in 0..MaxN : Ask(kind, i, j)
        \/ Len(asks) = MaxAsks /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Neutral(a) == a[1] \in {"nopts", "get"}
(* answered exactly when defined *)
Exact == \A k \in 1..Len(asks) : IF Neutral(asks[k]) THEN (asks[k] \notin Defined(font)) => got[k] = 0
                                 ELSE (got[k] # Refused) <=> (asks[k] \in Defined(font))
(* the values of the settings are those of the accepted questions, and recomputing the session gives the same answers *)
Same == got = Answers(font, asks)
NoHarm == [][(got'[Len(got')] = Refused) => sv' = sv]_vars
=============================================================================
