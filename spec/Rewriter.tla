------------------------------ MODULE Rewriter ------------------------------
(* Rewrite rules: their encoding, what a set of rules does to a sequence (the  *)
(* reference, Scan), and a streaming machine that must agree with it.          *)
(*                                                                             *)
(* A rule is a record [cond, head, body, tail, out, els]; els lists the head,  *)
(* body and tail elements, each [set, v]: an element v or the set number v.    *)
(* A set is [ranges, list] with inclusive ranges <<first, last>>.              *)
EXTENDS Cond

-----------------------------------------------------------------------------
(* --- encoding --- *)
Num(d, i, w) == IF w = 2 THEN d[i] + 256 * d[i + 1]
                ELSE d[i] + 256 * (d[i + 1] + 256 * (d[i + 2] + 256 * (IF d[i + 3] >= 128 THEN d[i + 3] - 256 ELSE d[i + 3])))
DecodeSet(d, w) ==
  LET nr == d[1]
      j == 2 + nr * (w + 1)
  IN [ranges |-> [i \in 1..nr |-> LET k == 2 + (i - 1) * (w + 1) IN <<Num(d, k, w), Num(d, k, w) + d[k + w]>>],
      list |-> [i \in 1..d[j] |-> Num(d, j + 1 + (i - 1) * w, w)]]
InSet(x, s) == (\E i \in 1..Len(s.ranges) : s.ranges[i][1] <= x /\ x <= s.ranges[i][2])
               \/ \E i \in 1..Len(s.list) : s.list[i] = x

ValidElem(x, w) == IF w = 2 THEN x < 56789 ELSE x # 65533
NoRule == [cond |-> 0, head |-> 0, body |-> 0, tail |-> 0, out |-> <<>>, els |-> <<>>]
BadRule == [st |-> "bad", r |-> NoRule]
(* elements of one block: [ok, els, next] *)
BadBlock == [ok |-> FALSE, els |-> <<>>, next |-> 0]
RECURSIVE BlockFrom(_, _, _, _, _)
BlockFrom(d, i, n, w, acc) ==
  IF n = 0 THEN [ok |-> TRUE, els |-> acc, next |-> i]
  ELSE IF i > Len(d) THEN BadBlock
  ELSE LET ns == d[i] \div 16
           ne == d[i] % 16
           k == i + 1 + ns
           after == k + ne * w
       IN IF ns + ne = 0 \/ ns + ne > n \/ after > Len(d) + 1 THEN BadBlock
          ELSE IF (\E j \in 1..ns : d[i + j] = 255) \/ (\E j \in 1..ne : ~ValidElem(Num(d, k + (j - 1) * w, w), w)) THEN BadBlock
          ELSE BlockFrom(d, after, n - ns - ne, w,
                         acc \o [j \in 1..ns |-> [set |-> TRUE, v |-> d[i + j]]]
                             \o [j \in 1..ne |-> [set |-> FALSE, v |-> Num(d, k + (j - 1) * w, w)]])
Block(d, i, n, w) == IF n > 0 THEN BlockFrom(d, i, n, w, <<>>)
                     ELSE IF i > Len(d) \/ d[i] # 0 THEN BadBlock
                     ELSE [ok |-> TRUE, els |-> <<>>, next |-> i + 1]
MinRuleLen(w) == IF w = 2 THEN 11 ELSE 13
(* st: "ok", "bad", or "lenient" when only the final empty tail is missing *)
DecodeRule(d, w) ==
  IF Len(d) < MinRuleLen(w) THEN BadRule ELSE
  LET hl == d[2]
      bl == d[3]
      tl == d[4]
      ol == d[5]
  IN IF ol = 0 \/ bl = 0 \/ ol > bl \/ hl + bl + tl > 255 \/ 5 + ol * w > Len(d) THEN BadRule
     ELSE LET h == Block(d, 6 + ol * w, hl, w)
          IN IF ~h.ok THEN BadRule
             ELSE LET b == Block(d, h.next, bl, w)
                  IN IF ~b.ok THEN BadRule
                     ELSE LET t == Block(d, b.next, tl, w)
                              lenient == tl = 0 /\ b.next = Len(d) + 1
                          IN IF ~lenient /\ (~t.ok \/ t.next # Len(d) + 1) THEN BadRule
                             ELSE [st |-> IF lenient THEN "lenient" ELSE "ok",
                                   r |-> [cond |-> d[1], head |-> hl, body |-> bl, tail |-> tl,
                                          out |-> [j \in 1..ol |-> Num(d, 6 + (j - 1) * w, w)],
                                          els |-> h.els \o b.els \o (IF lenient THEN <<>> ELSE t.els)]]

-----------------------------------------------------------------------------
(* --- the reference --- *)
ElemMatches(e, x, sets) == IF e.set THEN InSet(x, sets[e.v + 1]) ELSE e.v = x
(* the first n elements of the rule match s from position p + 1 on *)
PrefixMatches(r, n, s, p, sets) == p + n <= Len(s) /\ \A i \in 1..n : ElemMatches(r.els[i], s[p + i], sets)
Matches(r, s, p, sets) == PrefixMatches(r, Len(r.els), s, p, sets)

MinOf(S) == CHOOSE v \in S : \A w \in S : v <= w
MaxOf(S) == CHOOSE v \in S : \A w \in S : v >= w
(* The index of the rule to apply at position p when the first u elements from *)
(* there have already been emitted as the tail of another rule; 0 for none.    *)
(* Within a condition group: for every length, the first matching rule is the  *)
(* candidate; it applies if its head covers those u elements; the longest one  *)
(* wins.  Among groups, the lowest index wins.                                 *)
Best(rs, sat, s, p, u, sets) ==
  LET m == {i \in 1..Len(rs) : rs[i].cond \in sat /\ Matches(rs[i], s, p, sets)}
  IN IF m = {} THEN 0 ELSE
     LET first == {i \in m : \A j \in m : rs[j].cond = rs[i].cond /\ Len(rs[j].els) = Len(rs[i].els) => i <= j}
         elig == {i \in first : rs[i].head >= u}
         longest == {i \in elig : \A j \in elig : rs[j].cond = rs[i].cond => Len(rs[j].els) <= Len(rs[i].els)}
     IN IF longest = {} THEN 0 ELSE MinOf(longest)

(* Output items: <<k, 0>> is the input element at position k > 0, <<0, v>> the *)
(* rule output element v.  Boundaries: <<position, items emitted>> after every *)
(* decision.                                                                   *)
(* Conditions may change on the way: segs lists <<position, the conditions that *)
(* hold from there on>>, the first position being 0.                           *)
SatAt(segs, p) == IF Len(segs) = 1 THEN segs[1][2] ELSE segs[MaxOf({i \in 1..Len(segs) : segs[i][1] <= p})][2]
RECURSIVE ScanFrom(_, _, _, _, _, _, _, _)
ScanFrom(rs, segs, s, sets, p, u, out, bs) ==
  IF p >= Len(s) THEN [out |-> out, bs |-> bs, u |-> u]
  ELSE LET b == Best(rs, SatAt(segs, p), s, p, u, sets)
       IN IF b = 0
          THEN LET o == IF u = 0 THEN Append(out, <<p + 1, 0>>) ELSE out
               IN ScanFrom(rs, segs, s, sets, p + 1, IF u = 0 THEN 0 ELSE u - 1, o, Append(bs, <<p + 1, Len(o)>>))
          ELSE LET r == rs[b]
                   q == p + r.head + r.body
                   o == out \o [i \in 1..r.head - u |-> <<p + u + i, 0>>]
                            \o [i \in 1..Len(r.out) |-> <<0, r.out[i]>>]
                            \o [i \in 1..r.tail |-> <<q + i, 0>>]
               IN ScanFrom(rs, segs, s, sets, q, r.tail, o, Append(bs, <<q, Len(o)>>))
ScanSegs(rs, segs, s, sets) == ScanFrom(rs, segs, s, sets, 0, 0, <<>>, <<<<0, 0>>>>)
Scan(rs, sat, s, sets) == ScanSegs(rs, <<<<0, sat>>>>, s, sets)
Values(items, s) == [i \in 1..Len(items) |-> IF items[i][1] > 0 THEN s[items[i][1]] ELSE items[i][2]]

(* some rule could still match with more input after s[p + 1 ..] *)
Viable(rs, sat, s, p, sets) ==
  \E i \in 1..Len(rs) : rs[i].cond \in sat /\ Len(rs[i].els) > Len(s) - p /\ PrefixMatches(rs[i], Len(s) - p, s, p, sets)

-----------------------------------------------------------------------------
(* --- a streaming machine: acc holds the undecided elements --- *)
Flush1(rs, sat, st, sets) ==    \* one decision on the oldest undecided element
  LET b == Best(rs, sat, st.acc, 0, st.u, sets)
      r == rs[b]
  IN IF b = 0
     THEN [acc |-> Tail(st.acc), u |-> IF st.u = 0 THEN 0 ELSE st.u - 1,
           out |-> IF st.u = 0 THEN Append(st.out, Head(st.acc)) ELSE st.out]
     ELSE [acc |-> SubSeq(st.acc, r.head + r.body + 1, Len(st.acc)), u |-> r.tail,
           out |-> st.out \o SubSeq(st.acc, st.u + 1, r.head) \o r.out \o SubSeq(st.acc, r.head + r.body + 1, Len(r.els))]
RECURSIVE Settle(_, _, _, _)
Settle(rs, sat, st, sets) == IF st.acc = <<>> \/ Viable(rs, sat, st.acc, 0, sets) THEN st
                             ELSE Settle(rs, sat, Flush1(rs, sat, st, sets), sets)
FeedOne(rs, sat, st, x, sets) == Settle(rs, sat, [st EXCEPT !.acc = Append(@, x)], sets)
(* with conditions that changed: hs are those that hold for the decision that has *)
(* begun on the oldest element, sat for the following ones                        *)
RECURSIVE SettleMid(_, _, _, _, _)
SettleMid(rs, hs, sat, st, sets) == IF st.acc = <<>> THEN [st |-> st, hs |-> sat]
                                    ELSE IF Viable(rs, hs, st.acc, 0, sets) THEN [st |-> st, hs |-> hs]
                                    ELSE SettleMid(rs, sat, sat, Flush1(rs, hs, st, sets), sets)
FeedMid(rs, hs, sat, st, x, sets) == SettleMid(rs, hs, sat, [st EXCEPT !.acc = Append(@, x)], sets)
RECURSIVE FlushAll(_, _, _, _)
FlushAll(rs, sat, st, sets) == IF Len(st.acc) <= st.u THEN [acc |-> <<>>, u |-> 0, out |-> st.out]
                               ELSE FlushAll(rs, sat, Flush1(rs, sat, st, sets), sets)
FlushMid(rs, hs, sat, st, sets) == IF Len(st.acc) <= st.u THEN [acc |-> <<>>, u |-> 0, out |-> st.out]
                                   ELSE FlushAll(rs, sat, Flush1(rs, hs, st, sets), sets)
=============================================================================
