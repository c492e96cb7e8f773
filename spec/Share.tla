------------------------------- MODULE Share --------------------------------
(* Users that share a font and nothing else.  A font is never written to once  *)
(* it has been handed out; everything that is (settings, caches, builders,     *)
(* their scratch memory) belongs to one user.  Then what any user is told is   *)
(* what it would be told if it were alone, whatever the others do in between,  *)
(* and what it was given earlier stays what it was.                            *)
(*                                                                             *)
(* Each user asks the shared font through a cache of its own, changes its own  *)
(* settings, tells its own builder things, and builds: first into scratch      *)
(* memory, then, in a later step, out of it.                                   *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Users, Queries, Vals, Len0
VARIABLES val, cache, told, scratch, given, log
vars == <<val, cache, told, scratch, given, log>>
None == 0
(* what the font says about a query under a setting *)
Answer(q, v) == <<q, v>>
Init == /\ val = [u \in Users |-> 1] /\ cache = [u \in Users |-> [q \in Queries |-> <<>>]]
        /\ told = [u \in Users |-> 1] /\ scratch = [u \in Users |-> None]
        /\ given = [u \in Users |-> <<>>] /\ log = [u \in Users |-> <<>>]
Free(u) == Len(log[u]) < Len0 /\ scratch[u] = None
Note(u, op, res) == log' = [log EXCEPT ![u] = Append(@, <<op, res>>)]
Ask(u, q) == /\ Free(u)
             /\ LET a == IF cache[u][q] # <<>> THEN cache[u][q] ELSE Answer(q, val[u])
                IN cache' = [cache EXCEPT ![u][q] = a] /\ Note(u, <<"ask", q>>, a)
             /\ UNCHANGED <<val, told, scratch, given>>
Set(u, v) == /\ Free(u) /\ v # val[u] /\ val' = [val EXCEPT ![u] = v]
             /\ cache' = [cache EXCEPT ![u] = [q \in Queries |-> <<>>]]
             /\ Note(u, <<"set", v>>, <<>>) /\ UNCHANGED <<told, scratch, given>>
Tell(u, v) == /\ Free(u) /\ v # told[u] /\ told' = [told EXCEPT ![u] = v]
              /\ Note(u, <<"tell", v>>, <<>>) /\ UNCHANGED <<val, cache, scratch, given>>
Begin(u) == Free(u) /\ scratch' = [scratch EXCEPT ![u] = told[u]] /\ UNCHANGED <<val, cache, told, given, log>>
Finish(u) == /\ scratch[u] # None /\ given' = [given EXCEPT ![u] = Append(@, scratch[u])]
             /\ scratch' = [scratch EXCEPT ![u] = None] /\ Note(u, <<"build", 0>>, <<scratch[u]>>)
             /\ UNCHANGED <<val, cache, told>>
(* reading all the fonts one was given so far *)
Look(u) == /\ Free(u) /\ Note(u, <<"look", 0>>, given[u]) /\ UNCHANGED <<val, cache, told, scratch, given>>
Finished == \A u \in Users : Len(log[u]) = Len0
Next == \/ \E u \in Users : \/ \E q \in Queries : Ask(u, q)
                            \/ \E v \in Vals : Set(u, v) \/ Tell(u, v)
                            \/ Begin(u) \/ Finish(u) \/ Look(u)
        \/ Finished /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

(* a user alone, without any cache *)
RECURSIVE Alone(_, _, _, _)
Alone(h, v, t, g) ==
  IF h = <<>> THEN <<>>
  ELSE LET op == h[1][1]
           r == CASE op[1] = "ask" -> Answer(op[2], v) [] op[1] = "build" -> <<t>> [] op[1] = "look" -> g [] OTHER -> <<>>
       IN <<<<op, r>>>> \o Alone(Tail(h), IF op[1] = "set" THEN op[2] ELSE v, IF op[1] = "tell" THEN op[2] ELSE t,
                                 IF op[1] = "build" THEN Append(g, t) ELSE g)
AsIfAlone == \A u \in Users : log[u] = Alone(log[u], 1, 1, <<>>)
Kept == [][\A u \in Users : Len(given[u]) <= Len(given'[u]) /\ SubSeq(given'[u], 1, Len(given[u])) = given[u]]_vars
=============================================================================
