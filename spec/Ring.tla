-------------------------------- MODULE Ring --------------------------------
(* Abstract queue behind the rewriters' pending buffers (C17): a plain FIFO *)
(* with a fixed capacity and a read-only peek cursor.  Every operation of   *)
(* CircularBufferU16 is one action; `res` is what the call returns.         *)
EXTENDS Naturals, Sequences

CONSTANTS Elems,   \* elements that can be pushed (exhaustive configuration only)
          MaxCap   \* largest capacity used by the exhaustive configuration

VARIABLES q,    \* contents, head first
          cap,  \* capacity
          pk,   \* number of elements between the head and the peek cursor
          res   \* last reply: [p |-> "" or "panic", v |-> value, ok |-> flag]

vars == <<q, cap, pk, res>>
Zero == 0

Min(a, b) == IF a < b THEN a ELSE b
Ret(v, ok) == res' = [p |-> "", v |-> v, ok |-> ok]
Refuse == res' = [p |-> "panic", v |-> 0, ok |-> FALSE] /\ UNCHANGED <<q, cap, pk>>

Init == q = <<>> /\ cap = 0 /\ pk = 0 /\ res = [p |-> "", v |-> Zero, ok |-> TRUE]

Push(x) == IF Len(q) >= cap THEN Refuse
           ELSE q' = Append(q, x) /\ UNCHANGED <<cap, pk>> /\ Ret(Zero, TRUE)

\* the peek cursor keeps pointing at the same element, or at the new head if that element goes
PopHead == IF q = <<>> THEN Refuse
           ELSE /\ q' = Tail(q)
                /\ pk' = IF pk > 0 THEN pk - 1 ELSE 0
                /\ UNCHANGED cap
                /\ Ret(Head(q), TRUE)

PopTail == IF q = <<>> THEN Refuse
           ELSE /\ q' = SubSeq(q, 1, Len(q) - 1)
                /\ pk' = IF pk > 0 /\ pk = Len(q) - 1 THEN pk - 1 ELSE pk
                /\ UNCHANGED cap
                /\ Ret(q[Len(q)], TRUE)

GetHead == IF q = <<>> THEN Refuse ELSE UNCHANGED <<q, cap, pk>> /\ Ret(q[1], TRUE)
GetTail == IF q = <<>> THEN Refuse ELSE UNCHANGED <<q, cap, pk>> /\ Ret(q[Len(q)], TRUE)

Peek == /\ UNCHANGED <<q, cap>>
        /\ CASE q = <<>>           -> pk' = pk /\ Ret(Zero, FALSE)
             [] q # <<>> /\ pk + 1 < Len(q)  -> pk' = pk + 1 /\ Ret(q[pk + 2], TRUE)
             [] q # <<>> /\ pk + 1 >= Len(q) -> pk' = pk /\ Ret(q[pk + 1], FALSE)

\* the elements before the cursor leave the queue
Confirm == /\ q' = SubSeq(q, pk + 1, Len(q))
           /\ pk' = 0 /\ UNCHANGED cap /\ Ret(Zero, TRUE)
Discard == pk' = 0 /\ UNCHANGED <<q, cap>> /\ Ret(Zero, TRUE)
Clear   == q' = <<>> /\ pk' = 0 /\ UNCHANGED cap /\ Ret(Zero, TRUE)
SetCap(n) == IF n < Len(q) THEN UNCHANGED <<q, cap, pk>> /\ Ret(Zero, FALSE)
             ELSE cap' = n /\ UNCHANGED <<q, pk>> /\ Ret(Zero, TRUE)
\* n times push(x + i) and pop it again on an empty queue (moves the ring positions around)
Spin(n, x) == IF q # <<>> \/ cap = 0 \/ n = 0 THEN UNCHANGED <<q, cap, pk>> /\ Ret(Zero, FALSE)
              ELSE UNCHANGED <<q, cap>> /\ pk' = 0 /\ Ret(x + n - 1, TRUE)
SetMinCap(n) == IF cap >= n THEN UNCHANGED <<q, cap, pk>> /\ Ret(Zero, TRUE) ELSE SetCap(n)

Next == \/ \E x \in Elems : Push(x)
        \/ PopHead \/ PopTail \/ GetHead \/ GetTail \/ Peek \/ Confirm \/ Discard \/ Clear
        \/ \E n \in 0..MaxCap : SetCap(n) \/ SetMinCap(n)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == Len(q) <= cap /\ pk <= (IF Len(q) = 0 THEN 0 ELSE Len(q) - 1)

\* Contents only ever change at the two ends or by an explicit clear; capacity
\* changes never touch them.
IsSub(s, t) == \E i \in 0..Len(t) : \E j \in 0..Len(t) : i + Len(s) = j /\ j <= Len(t) /\ s = SubSeq(t, i + 1, j)
NoReorder == [][ IsSub(q', q) \/ (Len(q') = Len(q) + 1 /\ SubSeq(q', 1, Len(q)) = q) ]_vars
CapKeeps  == [][ cap' # cap => q' = q ]_vars
PeekReadOnly == [][ pk' > pk => q' = q ]_vars
=============================================================================
