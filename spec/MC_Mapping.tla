----------------------------- MODULE MC_Mapping -----------------------------
(* The mapping of one code point assembled group by group for a switch over    *)
(* two settings; every case must read back the group it was given, and the     *)
(* cases must enumerate the value vectors, the last setting fastest.           *)
EXTENDS Mapping
CONSTANTS Opts, Glyphs, MaxSize
VARIABLES nopts, sw, groups
vars == <<nopts, sw, groups>>
Init == /\ nopts \in [1..2 -> Opts] /\ sw \in {<<0>>, <<1>>, <<0, 1>>, <<1, 0>>} /\ groups = <<>>
Lists(n) == [1..n -> Glyphs]
Groups == {[range |-> FALSE, flags |-> IF n > 1 THEN f ELSE 0, glyphs |-> l] : n \in 1..MaxSize, f \in {0, 5}, l \in UNION {Lists(k) : k \in 1..MaxSize}}
GroupsOK == {g \in Groups : (Len(g.glyphs) > 1 \/ g.flags = 0)} \cup
            {[range |-> TRUE, flags |-> 2, glyphs |-> <<b, b + 1>>] : b \in Glyphs} \cup
            {[range |-> TRUE, flags |-> 0, glyphs |-> <<b>>] : b \in Glyphs}
Next == /\ Len(groups) < NumCases(sw, nopts)
        /\ \E g \in GroupsOK : groups' = Append(groups, g)
        /\ UNCHANGED <<nopts, sw>>
Vecs == {v \in [1..2 -> 0..4] : \A i \in 1..2 : v[i] < nopts[i]}
Font == [nopts |-> nopts, switches |-> <<sw>>, mapping |-> <<<<65, EncEntry(0, groups)>>>>, conds |-> <<>>]
Reads == Len(groups) = NumCases(sw, nopts) =>
           \A v \in Vecs : LET r == Lookup(Font, 65, v)
                               g == groups[CaseOf(sw, nopts, v) + 1]
                           IN r.found /\ r.glyphs = g.glyphs /\ r.size = Len(g.glyphs)
                              /\ r.flags = (IF Len(g.glyphs) > 1 THEN g.flags ELSE 0)
Radix == LET rel == {i \in 1..2 : \E k \in 1..Len(sw) : sw[k] = i - 1}
         IN /\ {CaseOf(sw, nopts, v) : v \in Vecs} = 0..NumCases(sw, nopts) - 1
            /\ \A v, w \in Vecs : CaseOf(sw, nopts, v) = CaseOf(sw, nopts, w) <=> \A i \in rel : v[i] = w[i]
            /\ \A v \in Vecs : LET l == sw[Len(sw)] + 1
                               IN v[l] + 1 < nopts[l] =>
                                    CaseOf(sw, nopts, [v EXCEPT ![l] = @ + 1]) = CaseOf(sw, nopts, v) + 1
=============================================================================
