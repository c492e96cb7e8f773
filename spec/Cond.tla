------------------------------- MODULE Cond --------------------------------
(* Rewrite conditions: boolean formulas over the values of the settings, and   *)
(* their byte encoding.  Three independent readings of an encoded condition    *)
(* are specified and checked to agree: the formula it encodes (Parse + Sat),   *)
(* and a short-circuiting evaluator that skips the terms it does not need.     *)
(* A formula is a record [k, o, a, b, c, xs]: kind "or"/"and" with terms xs,   *)
(* or "cmp" with operator o, setting a and operand b, a constant iff c = 1.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Group(k, xs) == [k |-> k, o |-> 0, a |-> 0, b |-> 0, c |-> 0, xs |-> xs]
Cmp(o, a, b, c) == [k |-> "cmp", o |-> o, a |-> a, b |-> b, c |-> c, xs |-> <<>>]

(* operators, numbered as the format does *)
Compare(o, x, y) == CASE o = 0 -> x = y [] o = 1 -> x # y [] o = 2 -> x < y
                      [] o = 3 -> x > y [] o = 4 -> x <= y [] o = 5 -> x >= y

RECURSIVE Sat(_, _)
Sat(f, vals) ==
  CASE f.k = "or" -> \E i \in 1..Len(f.xs) : Sat(f.xs[i], vals)
    [] f.k = "and" -> \A i \in 1..Len(f.xs) : Sat(f.xs[i], vals)
    [] OTHER -> Compare(f.o, vals[f.a + 1], IF f.c = 1 THEN f.b ELSE vals[f.b + 1])

(* parsing: [ok, f, next] from the encoded bytes d at index i *)
Bad == [ok |-> FALSE, f |-> Group("or", <<>>), next |-> 0]
RECURSIVE ParseAt(_, _, _)
RECURSIVE ParseTerms(_, _, _, _, _)
ParseAt(d, i, ns) ==
  IF i > Len(d) THEN Bad ELSE
  LET c == d[i]
      hi == c \div 32
      lo == c % 32
  IN CASE hi = 0 -> ParseTerms(d, i + 1, lo, "or", ns)
       [] hi = 1 -> ParseTerms(d, i + 1, lo, "and", ns)
       [] hi = 2 -> IF i + 2 > Len(d) \/ lo % 16 > 5 THEN Bad
                    ELSE IF d[i + 1] >= ns \/ (lo < 16 /\ d[i + 2] >= ns) THEN Bad
                    ELSE [ok |-> TRUE, f |-> Cmp(lo % 16, d[i + 1], d[i + 2], lo \div 16), next |-> i + 3]
       [] hi = 7 -> Bad
       [] OTHER -> IF i + 1 > Len(d) THEN Bad ELSE IF d[i + 1] >= ns THEN Bad
                   ELSE [ok |-> TRUE, f |-> Cmp(hi - 3, d[i + 1], lo, 1), next |-> i + 2]
(* accumulates n terms *)
RECURSIVE TermsFrom(_, _, _, _, _)
TermsFrom(d, i, n, xs, ns) ==
  IF n = 0 THEN [ok |-> TRUE, xs |-> xs, next |-> i]
  ELSE LET t == ParseAt(d, i, ns)
       IN IF ~t.ok THEN [ok |-> FALSE, xs |-> <<>>, next |-> 0]
          ELSE TermsFrom(d, t.next, n - 1, Append(xs, t.f), ns)
ParseTerms(d, i, n, k, ns) == LET t == TermsFrom(d, i, n, <<>>, ns)
                              IN IF t.ok THEN [ok |-> TRUE, f |-> Group(k, t.xs), next |-> t.next] ELSE Bad
(* ns: number of settings the condition may refer to *)
Parse(d, ns) == LET t == ParseAt(d, 1, ns) IN IF t.ok /\ t.next = Len(d) + 1 THEN t ELSE Bad
WellFormed(d, ns) == Parse(d, ns).ok
Eval(d, vals) == Sat(Parse(d, Len(vals)).f, vals)

(* encoding *)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
RECURSIVE Encode(_)
Encode(f) == CASE f.k = "or" -> <<Len(f.xs)>> \o Concat([i \in 1..Len(f.xs) |-> Encode(f.xs[i])])
               [] f.k = "and" -> <<32 + Len(f.xs)>> \o Concat([i \in 1..Len(f.xs) |-> Encode(f.xs[i])])
               [] OTHER -> <<64 + 16 * f.c + f.o, f.a, f.b>>
(* the short form exists for = # < > with constants below 32 *)
EncodeQuick(f) == <<32 * (f.o + 3) + f.b, f.a>>

(* a short-circuiting evaluator: [v, next] *)
RECURSIVE SkipAt(_, _)
RECURSIVE SkipN(_, _, _)
SkipN(d, i, n) == IF n = 0 THEN i ELSE SkipN(d, SkipAt(d, i), n - 1)
SkipAt(d, i) == LET hi == d[i] \div 32
                    lo == d[i] % 32
                IN IF hi < 2 THEN SkipN(d, i + 1, lo) ELSE IF hi = 2 THEN i + 3 ELSE i + 2
RECURSIVE ShortAt(_, _, _)
RECURSIVE ShortTerms(_, _, _, _, _)
ShortTerms(d, i, n, stop, vals) ==     \* stop: the value that settles the group
  IF n = 0 THEN [v |-> ~stop, next |-> i]
  ELSE LET t == ShortAt(d, i, vals)
       IN IF t.v = stop THEN [v |-> stop, next |-> SkipN(d, t.next, n - 1)]
          ELSE ShortTerms(d, t.next, n - 1, stop, vals)
ShortAt(d, i, vals) ==
  LET hi == d[i] \div 32
      lo == d[i] % 32
  IN CASE hi = 0 -> ShortTerms(d, i + 1, lo, TRUE, vals)
       [] hi = 1 -> ShortTerms(d, i + 1, lo, FALSE, vals)
       [] hi = 2 -> [v |-> Compare(lo % 16, vals[d[i + 1] + 1], IF lo >= 16 THEN d[i + 2] ELSE vals[d[i + 2] + 1]), next |-> i + 3]
       [] OTHER -> [v |-> Compare(hi - 3, vals[d[i + 1] + 1], lo), next |-> i + 2]
=============================================================================
