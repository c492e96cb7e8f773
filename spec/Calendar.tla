------------------------------ MODULE Calendar ------------------------------
(* The dates a font header can hold: the proleptic Gregorian calendar, with   *)
(* day, day and month, or everything left unset.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31
                     [] m \in {4, 6, 9, 11} -> 30
                     [] OTHER -> IF Leap(y) THEN 29 ELSE 28
Valid(y, m, d) == \/ y = 0 /\ m = 0 /\ d = 0
                  \/ y > 0 /\ m = 0 /\ d = 0
                  \/ y > 0 /\ m \in 1..12 /\ d = 0
                  \/ y > 0 /\ m \in 1..12 /\ d \in 1..MonthDays(y, m)
MonthNames == <<"January", "February", "March", "April", "May", "June", "July", "August",
                "September", "October", "November", "December">>
MonthName(m) == IF m \in 1..12 THEN MonthNames[m] ELSE "????"
Pad4(n) == IF n < 10 THEN "000" \o ToString(n) ELSE IF n < 100 THEN "00" \o ToString(n)
           ELSE IF n < 1000 THEN "0" \o ToString(n) ELSE ToString(n)
DateStr(y, m, d) == IF d = 0
                    THEN IF m = 0
                         THEN IF y = 0 THEN "(Unknown Date)" ELSE Pad4(y)
                         ELSE MonthName(m) \o " " \o Pad4(y)
                    ELSE ToString(d) \o " " \o MonthName(m) \o " " \o Pad4(y)
(* the valid days of every month of a year, as intervals *)
DayIntervals(y, m) == IF Valid(y, m, 0)
                      THEN IF m = 0 THEN <<0, 0>> ELSE <<0, MonthDays(y, m)>>
                      ELSE <<>>
YearPattern(y) == [i \in 1..13 |-> DayIntervals(y, i - 1)]
-----------------------------------------------------------------------------
(* Model: a calendar advancing day by day through leap years, century years   *)
(* and their neighbours; the days it visits are exactly the valid complete    *)
(* dates of those years, so the closed formulas above agree with counting.    *)
CONSTANTS Years
VARIABLES year, month, day, seen
vars == <<year, month, day, seen>>
Init == /\ year \in Years /\ month = 1 /\ day = 1 /\ seen = 1
DaysIn(y) == IF Leap(y) THEN 366 ELSE 365
NextDay == /\ ~(month = 12 /\ day = 31)
           /\ IF day < MonthDays(year, month)
              THEN day' = day + 1 /\ month' = month
              ELSE day' = 1 /\ month' = month + 1
           /\ seen' = seen + 1 /\ UNCHANGED year
EndOfYear == month = 12 /\ day = 31 /\ UNCHANGED vars
Next == NextDay \/ EndOfYear
Visited == Valid(year, month, day)
YearLength == month = 12 /\ day = 31 => seen = DaysIn(year)
(* the intervals describe Valid for every month and day value *)
IntervalsOK == month = 12 /\ day = 31 =>
    \A m \in 0..255 : \A d \in 0..255 :
        LET iv == IF m <= 12 THEN DayIntervals(year, m) ELSE <<>>
        IN Valid(year, m, d) = (iv # <<>> /\ d >= iv[1] /\ d <= iv[2])
=============================================================================
