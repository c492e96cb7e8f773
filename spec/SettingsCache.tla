--------------------------- MODULE SettingsCache ----------------------------
(* A settings cache: current values, plus decisions (switch cases and          *)
(* conditions) remembered until any setting is written.  Decisions are         *)
(* abstract functions of the values here (their meaning is in Mapping, Cond);  *)
(* the model checks that a remembered decision is always the fresh one.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, MaxVal, Decisions
VARIABLES vals, cached, reads
vars == <<vals, cached, reads>>
None == -1
(* an arbitrary fixed interpretation that tells all the vectors apart *)
Fresh(d, v) == LET RECURSIVE Sum(_)
                   Sum(S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN v[k] * (MaxVal + 1)^k + Sum(S \ {k})
               IN 10 * Sum(Keys) + d
Init == vals = [k \in Keys |-> 0] /\ cached = [d \in Decisions |-> None] /\ reads = None
Set(k, v) == /\ vals' = [vals EXCEPT ![k] = v] /\ cached' = [d \in Decisions |-> None] /\ reads' = None
Decide(d) == /\ reads' = IF cached[d] # None THEN cached[d] ELSE Fresh(d, vals)
             /\ cached' = [cached EXCEPT ![d] = reads'] /\ UNCHANGED vals
Get(k) == reads' = vals[k] /\ UNCHANGED <<vals, cached>>
Next == \/ \E k \in Keys, v \in 0..MaxVal : Set(k, v)
        \/ \E d \in Decisions : Decide(d)
        \/ \E k \in Keys : Get(k)
CachedIsFresh == \A d \in Decisions : cached[d] \in {None, Fresh(d, vals)}
OneWrite == [][\A k \in Keys : vals'[k] # vals[k] => \A j \in Keys \ {k} : vals'[j] = vals[j]]_vars
=============================================================================
