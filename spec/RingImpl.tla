------------------------------ MODULE RingImpl ------------------------------
(* The array representation used by the code (buffer, headIndex, numElements,*)
(* numPeeks, indices modulo the capacity), checked to refine Ring.           *)
EXTENDS Naturals, Sequences

CONSTANTS Elems, MaxCap
VARIABLES buf, cap, head, num, pk, res
vars == <<buf, cap, head, num, pk, res>>

Idx(n) == IF head + n < cap THEN head + n ELSE head + n - cap
Ret(v, ok) == res' = [p |-> "", v |-> v, ok |-> ok]
Refuse == res' = [p |-> "panic", v |-> 0, ok |-> FALSE] /\ UNCHANGED <<buf, cap, head, num, pk>>

Init == buf = <<>> /\ cap = 0 /\ head = 0 /\ num = 0 /\ pk = 0 /\ res = [p |-> "", v |-> 0, ok |-> TRUE]

Push(x) == IF num >= cap THEN Refuse
  ELSE num' = num + 1 /\ buf' = [buf EXCEPT ![Idx(num) + 1] = x] /\ UNCHANGED <<cap, head, pk>> /\ Ret(0, TRUE)
PopHead == IF num = 0 THEN Refuse
  ELSE /\ num' = num - 1 /\ pk' = (IF pk > 0 THEN pk - 1 ELSE 0)
       /\ head' = (IF head + 1 = cap THEN 0 ELSE head + 1)
       /\ UNCHANGED <<buf, cap>> /\ Ret(buf[head + 1], TRUE)
PopTail == IF num = 0 THEN Refuse
  ELSE /\ num' = num - 1 /\ pk' = (IF pk > 0 /\ pk = num - 1 THEN pk - 1 ELSE pk)
       /\ UNCHANGED <<buf, cap, head>> /\ Ret(buf[Idx(num - 1) + 1], TRUE)
GetHead == IF num = 0 THEN Refuse ELSE UNCHANGED <<buf, cap, head, num, pk>> /\ Ret(buf[head + 1], TRUE)
GetTail == IF num = 0 THEN Refuse ELSE UNCHANGED <<buf, cap, head, num, pk>> /\ Ret(buf[Idx(num - 1) + 1], TRUE)
Peek == /\ UNCHANGED <<buf, cap, head, num>>
        /\ IF num = 0 THEN pk' = pk /\ Ret(0, FALSE)
           ELSE IF pk = num - 1 THEN pk' = pk /\ Ret(buf[Idx(pk) + 1], FALSE)
           ELSE pk' = pk + 1 /\ Ret(buf[Idx(pk + 1) + 1], TRUE)
Confirm == /\ head' = (IF num = 0 THEN head ELSE Idx(pk)) /\ num' = num - pk /\ pk' = 0 /\ UNCHANGED <<buf, cap>> /\ Ret(0, TRUE)
Discard == pk' = 0 /\ UNCHANGED <<buf, cap, head, num>> /\ Ret(0, TRUE)
Clear == head' = 0 /\ num' = 0 /\ pk' = 0 /\ UNCHANGED <<buf, cap>> /\ Ret(0, TRUE)
SetCap(n) == IF cap = n THEN UNCHANGED <<buf, cap, head, num, pk>> /\ Ret(0, TRUE)
  ELSE IF n < num THEN UNCHANGED <<buf, cap, head, num, pk>> /\ Ret(0, FALSE)
  ELSE /\ buf' = [i \in 1..n |-> IF i <= num THEN buf[((head + i - 1) % cap) + 1] ELSE 0]
       /\ head' = 0 /\ cap' = n /\ UNCHANGED <<num, pk>> /\ Ret(0, TRUE)
SetMinCap(n) == IF cap >= n THEN UNCHANGED <<buf, cap, head, num, pk>> /\ Ret(0, TRUE) ELSE SetCap(n)

Next == \/ \E x \in Elems : Push(x)
        \/ PopHead \/ PopTail \/ GetHead \/ GetTail \/ Peek \/ Confirm \/ Discard \/ Clear
        \/ \E n \in 0..MaxCap : SetCap(n) \/ SetMinCap(n)
Spec == Init /\ [][Next]_vars

Abs == [i \in 1..num |-> buf[Idx(i - 1) + 1]]
A == INSTANCE Ring WITH q <- Abs
Refines == A!Spec
AbsTypeOK == A!TypeOK
=============================================================================
