---------------------------- MODULE MC_Rewriter -----------------------------
(* A tester: rules are added and removed while idle, conditions change, and    *)
(* sequences are fed, broken and finished.  At every moment, flushing what is  *)
(* pending must give what the reference gives for the input since the last     *)
(* break, whatever happened before.                                            *)
EXTENDS Rewriter, Json
CONSTANTS Alphabet, MaxRules, MaxIn, MaxOps, CatalogSize, Lifecycle
E1(x) == [set |-> FALSE, v |-> x]
S1(x) == [set |-> TRUE, v |-> x]
R(c, h, b, t, o, e) == [cond |-> c, head |-> h, body |-> b, tail |-> t, out |-> o, els |-> e]
Sets == <<[ranges |-> <<<<1, 2>>>>, list |-> <<>>], [ranges |-> <<>>, list |-> <<3, 1>>]>>
Catalog == <<
  R(255, 0, 1, 0, <<7>>, <<E1(1)>>),
  R(255, 0, 2, 0, <<8>>, <<E1(1), E1(2)>>),
  R(255, 1, 1, 0, <<9>>, <<E1(2), E1(1)>>),
  R(255, 0, 1, 1, <<6>>, <<E1(1), E1(1)>>),
  R(0, 0, 1, 2, <<5>>, <<S1(0), E1(2), S1(1)>>),
  R(255, 2, 1, 0, <<4>>, <<S1(0), S1(1), E1(1)>>),
  R(0, 1, 1, 1, <<3>>, <<E1(1), S1(0), E1(1)>>),
  R(255, 0, 3, 0, <<1, 2>>, <<E1(1), E1(2), S1(1)>>),
  R(0, 1, 2, 0, <<2, 2>>, <<S1(1), E1(2), E1(2)>>),
  R(255, 0, 1, 3, <<1>>, <<E1(2), S1(0), S1(0), E1(1)>>),
  R(0, 1, 1, 0, <<1>>, <<S1(0), S1(0)>>),
  R(255, 2, 1, 1, <<7>>, <<E1(1), E1(2), E1(1), E1(2)>>)>>
VARIABLES rules, truth, on, sat, inp, st, nops, hs, segs
vars == <<rules, truth, on, sat, inp, st, nops, hs, segs>>
Fresh == [acc |-> <<>>, u |-> 0, out |-> <<>>]
Conds == {255, 0}
Idx == 1..CatalogSize
RulesOf(ix) == [i \in 1..Len(ix) |-> Catalog[ix[i]]]
Rs == RulesOf(rules)
Init == /\ rules \in (IF Lifecycle THEN {<<>>} ELSE UNION {[1..n -> Idx] : n \in 0..MaxRules})
        /\ truth \in {{255}, Conds} /\ on = ~Lifecycle /\ sat = truth /\ inp = <<>> /\ st = Fresh /\ nops = 0
        /\ hs = truth /\ segs = <<<<0, truth>>>>
DeleteAt(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Op == nops < MaxOps /\ nops' = nops + 1
Add == /\ Lifecycle /\ ~on /\ Len(rules) < MaxRules /\ \E k \in Idx : rules' = Append(rules, k)
       /\ Op /\ UNCHANGED <<truth, on, sat, inp, st, hs, segs>>
Del == /\ Lifecycle /\ ~on /\ \E k \in 1..Len(rules) : rules' = DeleteAt(rules, k)
       /\ Op /\ UNCHANGED <<truth, on, sat, inp, st, hs, segs>>
Afresh == hs' = truth' /\ segs' = <<<<0, truth'>>>> /\ inp' = <<>> /\ st' = Fresh
Change == /\ Lifecycle /\ truth' = (IF 0 \in truth THEN {255} ELSE Conds) /\ sat' = truth'
          /\ IF on /\ st.acc # <<>>
             THEN segs' = Append(segs, <<Len(inp) - Len(st.acc) + 1, truth'>>) /\ UNCHANGED <<inp, st, hs>>
             ELSE Afresh
          /\ Op /\ UNCHANGED <<rules, on>>
Begin == ~on /\ on' = TRUE /\ sat' = truth /\ Op /\ UNCHANGED <<rules, truth>> /\ Afresh
Feed == /\ on /\ Len(inp) < MaxIn
        /\ \E x \in Alphabet : LET r == FeedMid(Rs, hs, sat, st, x, Sets) IN inp' = Append(inp, x) /\ st' = r.st /\ hs' = r.hs
        /\ (IF Lifecycle THEN Op ELSE nops' = nops) /\ UNCHANGED <<rules, truth, on, sat, segs>>
Break == Lifecycle /\ on /\ inp # <<>> /\ Op /\ UNCHANGED <<rules, truth, on, sat>> /\ Afresh
Finish == Lifecycle /\ on /\ on' = FALSE /\ Op /\ UNCHANGED <<rules, truth, sat>> /\ Afresh
Next == Add \/ Del \/ Change \/ Begin \/ Feed \/ Break \/ Finish

Ref == ScanSegs(Rs, segs, inp, Sets)
Refines == on => FlushMid(Rs, hs, sat, st, Sets).out = Values(Ref.out, inp)
(* what is already out, and how much is pending, is a boundary of the reference *)
AtBoundary == on => \E i \in 1..Len(Ref.bs) : Ref.bs[i][1] = Len(inp) - Len(st.acc) /\ Ref.bs[i][2] = Len(st.out)
Prefix == on => st.out = Values(SubSeq(Ref.out, 1, Len(st.out)), inp)
(* input elements come out at most once, in order; the missing ones were the   *)
(* bodies of rules                                                             *)
Kept == LET ps == SelectSeq(Ref.out, LAMBDA k : k[1] > 0)
        IN /\ \A i \in 1..Len(ps) - 1 : ps[i][1] < ps[i + 1][1]
           /\ Len(ps) <= Len(inp)
           /\ Len(Ref.out) <= Len(inp)
           /\ Rs = <<>> => Len(ps) = Len(inp)
Bounded == Len(st.acc) < 8
(* conditions that do not hold might as well not have rules *)
(* without changes on the way, the simpler machine does the same *)
Simpler == (on /\ Len(segs) = 1) => FlushAll(Rs, sat, st, Sets) = FlushMid(Rs, hs, sat, st, Sets)
Irrelevant == (on /\ Len(segs) = 1) => LET active == SelectSeq(Rs, LAMBDA r : r.cond \in sat)
                    IN Values(Scan(active, sat, inp, Sets).out, inp) = Values(Ref.out, inp)
Emit == (on /\ Len(inp) = MaxIn) => PrintT("@@" \o ToJson([rules |-> rules, sat |-> 0 \in sat, xs |-> inp]))
=============================================================================
