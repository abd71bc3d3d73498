------------------------------- MODULE Times -------------------------------
(* Contract of points in time (property P32): <<s, u>> is s * 10^6 + u         *)
(* microseconds, 0 <= u < 10^6.                                               *)
EXTENDS Integers, Sequences
VARIABLES t
tvars == <<t>>
M == 1000000
Norm(s, u) == <<s + (u \div M), u % M>>          \* floor division: for negative u as well
Plus(a, b) == Norm(a[1] + b[1], a[2] + b[2])
Neg(a) == Norm(-a[1], -a[2])
Minus(a, b) == Plus(a, Neg(b))
(* n of a unit: seconds, milliseconds, microseconds, quarters of a second *)
Dur(k, n) == CASE k = "s" -> <<n, 0>> [] k = "m" -> Norm(n \div 1000, (n % 1000) * 1000) [] k = "u" -> Norm(0, n)
               [] k = "q" -> Norm(n \div 4, (n % 4) * 250000)
Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
(* rounded towards zero *)
Secs(a) == IF a[1] < 0 /\ a[2] > 0 THEN a[1] + 1 ELSE a[1]
(* milliseconds, as a number of 10^6 and a rest *)
Pos(a) == Norm(a[1] \div 1000, (a[1] % 1000) * 1000 + (a[2] \div 1000))
Millis(a) == IF a[1] < 0 THEN Neg(Pos(Neg(a))) ELSE Pos(a)
(* the calendar, for points after 1970 *)
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
RECURSIVE Year(_, _)
Year(y, d) == LET n == IF Leap(y) THEN 366 ELSE 365 IN IF d < n THEN <<y, d>> ELSE Year(y + 1, d - n)
Month(y, i) == IF i = 2 THEN IF Leap(y) THEN 29 ELSE 28 ELSE IF i \in {4, 6, 9, 11} THEN 30 ELSE 31
RECURSIVE Day(_, _, _)
Day(y, i, d) == IF d < Month(y, i) THEN <<y, i, d + 1>> ELSE Day(y, i + 1, d - Month(y, i))
Date(d) == LET y == Year(1970, d) IN Day(y[1], 1, y[2])
Dig(n, w) == [i \in 1..w |-> 48 + ((n \div (10 ^ (w - i))) % 10)]
Shown(a, us) ==
  LET d == Date(a[1] \div 86400) r == a[1] % 86400 IN
  Dig(d[1], 4) \o Dig(d[2], 2) \o Dig(d[3], 2) \o <<32>> \o Dig(r \div 3600, 2) \o <<58>> \o Dig((r \div 60) % 60, 2) \o <<58>> \o Dig(r % 60, 2)
  \o (IF us THEN <<46>> \o Dig(a[2], 6) ELSE <<>>)
=============================================================================
