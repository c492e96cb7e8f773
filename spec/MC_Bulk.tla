------------------------------- MODULE MC_Bulk -------------------------------
(* The cache of Bulk, by ranges, against the cache of MappingCache, entry by   *)
(* entry: all sequences of passes.                                             *)
EXTENDS Bulk
CONSTANTS N, Len_, Sizes
VARIABLES recent, o, size, len
Init == recent = <<>> /\ o = <<>> /\ size \in Sizes /\ len = 0
Next == /\ len < Len_ /\ len' = len + 1 /\ UNCHANGED size
        /\ \E p \in Ranges(N) : recent' = AfterPass(recent, p, size) /\ o' = Walk(o, p, size, <<>>).o
Same == Listed(recent) = o
SameHits == \A p \in Ranges(N) : LET w == Walk(o, p, size, <<>>)
                                 IN \A k \in 1..SizeOf(p) : w.hits[k] = Cached(recent, p[1] + k - 1, p, size)
=============================================================================
