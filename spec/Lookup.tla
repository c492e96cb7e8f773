------------------------------- MODULE Lookup -------------------------------
(* Finding an entry of a sorted table by bisection, and the order of names     *)
(* (byte strings).  The machine keeps the interval [lo, hi] (counted from 0)   *)
(* the entry must be in; the reference is membership.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Alphabet, MaxName, MaxTable
VARIABLES table, target, lo, hi, st
vars == <<table, target, lo, hi, st>>

RECURSIVE Strings(_)
Strings(n) == IF n = 0 THEN {<<>>} ELSE Strings(n - 1) \cup {Append(x, a) : x \in {y \in Strings(n - 1) : Len(y) = n - 1}, a \in Alphabet}
Names == Strings(MaxName)
(* bytewise comparison, position by position; a prefix is smaller *)
RECURSIVE LessAt(_, _, _)
LessAt(a, b, i) == IF i > Len(a) THEN i <= Len(b)
                   ELSE IF i > Len(b) THEN FALSE
                   ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessAt(a, b, i + 1)
Less(a, b) == LessAt(a, b, 1)
ASSUME \A a, b \in Names : (a # b) <=> (Less(a, b) \/ Less(b, a))
ASSUME \A a, b \in Names : ~(Less(a, b) /\ Less(b, a))
ASSUME \A a, b, c \in Names : Less(a, b) /\ Less(b, c) => Less(a, c)

RECURSIVE Sort(_)
Sort(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x = y \/ Less(x, y) IN <<m>> \o Sort(S \ {m})
Tables == {Sort(S) : S \in {T \in SUBSET Names : Cardinality(T) <= MaxTable}}
Init == /\ table \in Tables /\ target \in Names
        /\ lo = 0 /\ hi = Len(table) - 1 /\ st = IF table = <<>> THEN "missing" ELSE "search"
Mid == (lo + hi) \div 2
Narrow == /\ st = "search" /\ lo < hi
          /\ IF Less(table[Mid + 1], target) THEN lo' = Mid + 1 /\ hi' = hi ELSE hi' = Mid /\ lo' = lo
          /\ UNCHANGED <<table, target, st>>
Decide == /\ st = "search" /\ lo >= hi
          /\ st' = IF table[lo + 1] = target THEN "found" ELSE "missing"
          /\ UNCHANGED <<table, target, lo, hi>>
Next == Narrow \/ Decide
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
In == \E i \in 1..Len(table) : table[i] = target
InRange == table # <<>> => 0 <= lo /\ lo <= hi /\ hi < Len(table)
Kept == In => \E i \in lo + 1..hi + 1 : table[i] = target
Right == /\ st = "found" => table[lo + 1] = target
         /\ st = "missing" => ~In
Ends == <>(st # "search")
=============================================================================
