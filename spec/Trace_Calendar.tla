---------------------------- MODULE Trace_Calendar ----------------------------
(* Validates date operations and the dates stored in fonts against Calendar.  *)
EXTENDS Calendar, Json, IOUtils
VARIABLES run, l, hdr
Runs == ndJsonDeserialize(IOEnv.TRACE)
E == Runs[run].evs[l]
tvars == <<run, l, hdr, year, month, day, seen>>
OK == E.p = ""
TInit == run \in 1..Len(Runs) /\ l = 1 /\ hdr = <<>>
         /\ year = 1 /\ month = 1 /\ day = 1 /\ seen = 1
IsEvent(o) == l <= Len(Runs[run].evs) /\ E.op = o /\ OK /\ l' = l + 1 /\ UNCHANGED <<run, year, month, day, seen>>
(* every month and day of the years from..to *)
YearsEv == /\ IsEvent("years")
           /\ Len(E.r.idx) = E.to - E.from + 1
           /\ \A k \in 1..Len(E.r.idx) :
                LET p == E.r.pats[E.r.idx[k]]
                IN p.over = 0 /\ p.months = YearPattern(E.from + k - 1)
           /\ UNCHANGED hdr
DateEv == /\ IsEvent("date")
          /\ E.r.valid = Valid(E.y, E.m, E.d)
          /\ E.r.complete = (E.y # 0 /\ E.m # 0 /\ E.d # 0)
          /\ E.r.hy = (E.y # 0) /\ E.r.hm = (E.m # 0) /\ E.r.hd = (E.d # 0)
          /\ E.r.str = DateStr(E.y, E.m, E.d)
          /\ E.r.month = MonthName(E.m)
          /\ E.r.after = <<E.y, E.m, E.d>>
          /\ UNCHANGED hdr
(* today, a whole and valid date *)
Now == /\ IsEvent("now") /\ UNCHANGED hdr
       /\ E.r.valid /\ E.r.complete /\ Valid(E.r.date[1], E.r.date[2], E.r.date[3])
       /\ \E k \in 1..2 : E.r.date = E.r.days[k]
(* a builder with all three dates given, accepting valid dates only *)
HNew == IsEvent("hnew") /\ hdr' = <<E.date, E.date, E.date>> /\ E.r.dates = hdr'
HSet == /\ IsEvent("hset")
        /\ LET d == <<E.y, E.m, E.d>>
               v == Valid(E.y, E.m, E.d)
           IN /\ E.r.ok = v
              /\ hdr' = IF v THEN [hdr EXCEPT ![E.k] = d] ELSE hdr
              /\ E.r.dates = hdr'
HBuild == /\ IsEvent("hbuild") /\ E.r.ok
          /\ E.r.built = hdr /\ E.r.parsed = hdr
          /\ UNCHANGED hdr
Done == l > Len(Runs[run].evs) /\ UNCHANGED tvars
TNext == YearsEv \/ DateEv \/ Now \/ HNew \/ HSet \/ HBuild \/ Done
=============================================================================
