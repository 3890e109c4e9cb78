------------------------------ MODULE Calendar ------------------------------
(* The proleptic Gregorian calendar.  A date d is a record with y mo d h mi. *)
EXTENDS Num

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysInMonth(m, y) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
DaysInYear(y) == IF Leap(y) THEN 366 ELSE 365

(* days before a month in a leap year: every date has the same place in all  *)
(* years, 29 February is simply missing from most                            *)
RECURSIVE Before(_, _)
Before(m, y) == IF m = 1 THEN 0 ELSE Before(m - 1, y) + DaysInMonth(m - 1, y)
YearPlace(d) == Before(d.mo, 2000) + d.d - 1        \* 0 .. 365
DayOfYear(d) == Before(d.mo, d.y) + d.d             \* 1 .. 366

(* days since 1 March of year 0 (Hinnant): an ordinal for any date           *)
DayNo(y, mo, d) ==
  LET y1 == IF mo <= 2 THEN y - 1 ELSE y
      era == y1 \div 400 yoe == y1 - (era * 400)
      doy == (((153 * (IF mo > 2 THEN mo - 3 ELSE mo + 9)) + 2) \div 5) + d - 1
      doe == (yoe * 365) + (yoe \div 4) - (yoe \div 100) + doy
  IN (era * 146097) + doe
(* the inverse *)
DateOf(n) ==
  LET era == n \div 146097 doe == n - (era * 146097)
      yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
      doy == doe - ((365 * yoe) + (yoe \div 4) - (yoe \div 100))
      mp == ((5 * doy) + 2) \div 153
      d == doy - (((153 * mp) + 2) \div 5) + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN [y |-> yoe + (era * 400) + (IF m <= 2 THEN 1 ELSE 0), mo |-> m, d |-> d]

Minutes(d) == (d.h * 60) + d.mi                     \* since midnight
NextMonth(d) == IF d.mo = 12 THEN [mo |-> 1, y |-> d.y + 1] ELSE [mo |-> d.mo + 1, y |-> d.y]
PrevMonth(d) == IF d.mo = 1 THEN [mo |-> 12, y |-> d.y - 1] ELSE [mo |-> d.mo - 1, y |-> d.y]
=============================================================================
