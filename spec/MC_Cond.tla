------------------------------ MODULE MC_Cond ------------------------------
(* Formulas are grown term by term on a stack (reverse Polish), so that every  *)
(* formula up to the bound is reached; all values are tried in the invariants. *)
EXTENDS Cond, Json
CONSTANTS NS, MaxVal, MaxLeaves, MaxGroups, Consts, MaxArity
VARIABLES stack, leaves, groups
vars == <<stack, leaves, groups>>
Init == stack = <<>> /\ leaves = 0 /\ groups = 0
Leaves == {Cmp(o, a, b, 1) : o \in 0..5, a \in 0..NS - 1, b \in Consts} \cup
          {Cmp(o, a, b, 0) : o \in 0..5, a \in 0..NS - 1, b \in 0..NS - 1}
Push == /\ leaves < MaxLeaves /\ \E f \in Leaves : stack' = Append(stack, f)
        /\ leaves' = leaves + 1 /\ UNCHANGED groups
Reduce == /\ groups < MaxGroups
          /\ \E n \in 2..MaxArity, k \in {"or", "and"} :
               /\ Len(stack) >= n
               /\ stack' = Append(SubSeq(stack, 1, Len(stack) - n), Group(k, SubSeq(stack, Len(stack) - n + 1, Len(stack))))
          /\ groups' = groups + 1 /\ UNCHANGED leaves
Next == Push \/ Reduce
Vecs == [1..NS -> 0..MaxVal]
Top == stack[Len(stack)]
RoundTrip == stack # <<>> => LET e == Encode(Top) IN WellFormed(e, NS) /\ Parse(e, NS).f = Top
Agree == stack # <<>> => LET e == Encode(Top)
                         IN \A v \in Vecs : LET s == ShortAt(e, 1, v)
                                            IN s.v = Sat(Top, v) /\ s.next = Len(e) + 1 /\ Eval(e, v) = s.v
Quick == stack # <<>> /\ Top.k = "cmp" /\ Top.c = 1 /\ Top.o <= 3 =>
           LET e == EncodeQuick(Top) IN WellFormed(e, NS) /\ Parse(e, NS).f = Top /\ \A v \in Vecs : ShortAt(e, 1, v).v = Sat(Top, v)
(* no proper prefix nor extension of an encoding is an encoding *)
PrefixFree == stack # <<>> => LET e == Encode(Top)
                              IN (\A n \in 0..Len(e) - 1 : ~WellFormed(SubSeq(e, 1, n), NS)) /\ ~WellFormed(e \o <<0>>, NS)
(* for the generator: complete formulas are printed with all their values *)
Complete == Len(stack) = 1 => PrintT("@@" \o ToJson([d |-> Encode(Top), q |-> Top.k = "cmp" /\ Top.c = 1 /\ Top.o <= 3]))
=============================================================================
