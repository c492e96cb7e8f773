---------------------------- MODULE MappingCache ----------------------------
(* A bounded cache of lookups with least-recently-used eviction.  order lists  *)
(* the cached code points, most recent first; sig tells which remembered       *)
(* answers may be used without looking again (those stored or verified since   *)
(* the last drop).  Two descriptions are specified and related: the order      *)
(* sequence, and timestamps; the model checks that they evict the same entry.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Has(order, cp) == \E i \in 1..Len(order) : order[i] = cp
Without(order, cp) == SelectSeq(order, LAMBDA x : x # cp)
(* the order after a successful lookup of cp *)
Touch(order, cp, size) == LET o == <<cp>> \o Without(order, cp) IN IF Len(o) > size THEN SubSeq(o, 1, size) ELSE o
-----------------------------------------------------------------------------
CONSTANTS Cps, Missing, Size, MaxVal, MaxOps
VARIABLES order, sig, stored, val, stale, time, stamp, nops, ans
vars == <<order, sig, stored, val, stale, time, stamp, nops, ans>>
Fresh(cp, v) == IF cp \in Missing THEN -1 ELSE cp * 10 + v
Init == /\ order = <<>> /\ sig = {} /\ stored = [c \in Cps |-> -1] /\ val = 0 /\ stale = FALSE
        /\ time = 0 /\ stamp = [c \in Cps |-> 0] /\ nops = 0 /\ ans = <<0, 0, FALSE>>
Get(cp) == /\ ~stale
           /\ IF cp \in Missing THEN ans' = <<cp, -1, FALSE>> /\ UNCHANGED <<order, sig, stored, time, stamp>>
              ELSE /\ time' = time + 1
                   /\ order' = Touch(order, cp, Size)
                   /\ LET hit == Has(order, cp) /\ cp \in sig
                          r == IF hit THEN stored[cp] ELSE Fresh(cp, val)
                      IN /\ ans' = <<cp, r, hit>>
                         /\ stored' = [stored EXCEPT ![cp] = r]
                         /\ sig' = (sig \cup {cp}) \cap {order'[i] : i \in 1..Len(order')}
                   /\ stamp' = [c \in Cps |-> IF c = cp THEN time + 1 ELSE IF Has(order', c) THEN stamp[c] ELSE 0]
           /\ UNCHANGED <<val, stale>>
Set(v) == val' = v /\ stale' = TRUE /\ ans' = <<0, 0, FALSE>> /\ UNCHANGED <<order, sig, stored, time, stamp>>
Drop == sig' = {} /\ stale' = FALSE /\ ans' = <<0, 0, FALSE>> /\ UNCHANGED <<order, stored, val, time, stamp>>
Reset == order' = <<>> /\ sig' = {} /\ stale' = FALSE /\ stamp' = [c \in Cps |-> 0] /\ ans' = <<0, 0, FALSE>> /\ UNCHANGED <<stored, val, time>>
Next == nops < MaxOps /\ nops' = nops + 1 /\ ((\E c \in Cps : Get(c)) \/ (\E v \in 0..MaxVal : Set(v)) \/ Drop \/ Reset)
Transparent == ans[1] # 0 => ans[2] = Fresh(ans[1], val)
Bounded == Len(order) <= Size /\ Cardinality({order[i] : i \in 1..Len(order)}) = Len(order)
(* most recent first, and the entries are exactly the Size most recently used ones *)
Lru == /\ \A i \in 1..Len(order) - 1 : stamp[order[i]] > stamp[order[i + 1]]
       /\ \A c \in Cps : Has(order, c) <=> stamp[c] > 0
Keeps == [][\A c \in Cps : Has(order, c) /\ ~Has(order', c) /\ order' # <<>> =>
              \A d \in Cps : Has(order, d) => stamp[c] <= stamp[d]]_vars
=============================================================================
