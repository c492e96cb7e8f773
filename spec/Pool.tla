-------------------------------- MODULE Pool --------------------------------
(* Workers that compile their own rules with compilers handed out by a single  *)
(* instance pool.  A compiler is memory that a worker overwrites step by step; *)
(* what a worker reads back at the end must be what it alone wrote.            *)
(*                                                                             *)
(* Retrieve is a compare-and-swap of inUse: success hands out instance 0, and  *)
(* failure a new instance of its own.  Release puts instance 0 back with       *)
(* another compare-and-swap.                                                   *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Workers, Steps, Rounds
VARIABLES pc, inUse, inst, mem, result, round
vars == <<pc, inUse, inst, mem, result, round>>
Insts == {0} \cup Workers         \* worker w's own instances are all called w
NoInst == 99
Init == /\ pc = [w \in Workers |-> "idle"] /\ inUse = 0 /\ inst = [w \in Workers |-> NoInst]
        /\ mem = [i \in Insts |-> <<>>] /\ result = [w \in Workers |-> <<>>] /\ round = [w \in Workers |-> 0]
(* what worker w writes in its k-th step of round r *)
Word(w, r, k) == <<w, r, k>>
Retrieve(w) ==
  /\ pc[w] = "idle" /\ round[w] < Rounds
  /\ IF inUse = 0 THEN inUse' = 1 /\ inst' = [inst EXCEPT ![w] = 0] ELSE UNCHANGED inUse /\ inst' = [inst EXCEPT ![w] = w]
  /\ pc' = [pc EXCEPT ![w] = "reset"] /\ UNCHANGED <<mem, result, round>>
Reset(w) == /\ pc[w] = "reset" /\ mem' = [mem EXCEPT ![inst[w]] = <<>>] /\ pc' = [pc EXCEPT ![w] = "work"]
            /\ UNCHANGED <<inUse, inst, result, round>>
Work(w) == /\ pc[w] = "work" /\ Len(mem[inst[w]]) < Steps
           /\ mem' = [mem EXCEPT ![inst[w]] = Append(@, Word(w, round[w], Len(@) + 1))]
           /\ UNCHANGED <<pc, inUse, inst, result, round>>
Read(w) == /\ pc[w] = "work" /\ Len(mem[inst[w]]) >= Steps /\ result' = [result EXCEPT ![w] = mem[inst[w]]]
           /\ pc' = [pc EXCEPT ![w] = "release"] /\ UNCHANGED <<inUse, inst, mem, round>>
(* a compilation may fail in the middle; the compiler goes back all the same *)
Fail(w) == /\ pc[w] = "work" /\ pc' = [pc EXCEPT ![w] = "release"] /\ UNCHANGED <<inUse, inst, mem, result, round>>
Release(w) == /\ pc[w] = "release"
              /\ (IF inst[w] = 0 THEN inUse = 1 /\ inUse' = 0 ELSE UNCHANGED inUse)
              /\ inst' = [inst EXCEPT ![w] = NoInst] /\ round' = [round EXCEPT ![w] = @ + 1]
              /\ pc' = [pc EXCEPT ![w] = "idle"] /\ UNCHANGED <<mem, result>>
Finished == \A w \in Workers : pc[w] = "idle" /\ round[w] = Rounds
Next == \/ \E w \in Workers : Retrieve(w) \/ Reset(w) \/ Work(w) \/ Read(w) \/ Fail(w) \/ Release(w)
        \/ Finished /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ \A w \in Workers : WF_vars(Retrieve(w) \/ Reset(w) \/ Work(w) \/ Read(w) \/ Fail(w) \/ Release(w))

Exclusive == \A v, w \in Workers : v # w /\ inst[v] # NoInst => inst[v] # inst[w]
SlotAccurate == inUse = Cardinality({w \in Workers : inst[w] = 0})
OwnResult == \A w \in Workers : pc[w] = "release" /\ result[w] # <<>> =>
                \A k \in 1..Len(result[w]) : result[w][k][1] = w /\ result[w][k][3] = k
NoBadRelease == \A w \in Workers : pc[w] = "release" /\ inst[w] = 0 => inUse = 1
Terminates == <>Finished
=============================================================================
