----------------------------- MODULE ByteQueue -----------------------------
(* Byte sequences, written as their canonical runs <<first, n>>: n bytes      *)
(* counting up (modulo 256) from first, each run as long as possible.         *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL Next1(r) == (r[1] + r[2]) % 256
RECURSIVE Size(_)
Size(a) == IF a = <<>> THEN 0 ELSE a[1][2] + Size(Tail(a))
Cat(a, b) ==
  IF a = <<>> THEN b ELSE IF b = <<>> THEN a
  ELSE LET x == a[Len(a)] y == b[1]
       IN IF Next1(x) = y[1]
          THEN SubSeq(a, 1, Len(a) - 1) \o <<<<x[1], x[2] + y[2]>>>> \o Tail(b)
          ELSE a \o b
(* all but the first n bytes *)
RECURSIVE Drop(_, _)
Drop(a, n) ==
  IF n = 0 \/ a = <<>> THEN a
  ELSE IF n >= a[1][2] THEN Drop(Tail(a), n - a[1][2])
  ELSE <<<<(a[1][1] + n) % 256, a[1][2] - n>>>> \o Tail(a)
(* the first n bytes *)
RECURSIVE Take(_, _)
Take(a, n) ==
  IF n = 0 \/ a = <<>> THEN <<>>
  ELSE IF n >= a[1][2] THEN <<a[1]>> \o Take(Tail(a), n - a[1][2])
  ELSE <<<<a[1][1], n>>>>
(* position of the first \n, or -1 *)
RECURSIVE FindLF(_)
FindLF(a) ==
  IF a = <<>> THEN -1
  ELSE LET d == (10 + 256 - a[1][1]) % 256
       IN IF d < a[1][2] THEN d
          ELSE LET k == FindLF(Tail(a)) IN IF k < 0 THEN -1 ELSE k + a[1][2]
(* position of the first \r\n, or -1: such a pair is never inside a run *)
RECURSIVE FindCRLF(_)
FindCRLF(a) ==
  IF Len(a) < 2 THEN -1
  ELSE IF Next1(a[1]) = 14 /\ a[2][1] = 10 THEN a[1][2] - 1
  ELSE LET k == FindCRLF(Tail(a)) IN IF k < 0 THEN -1 ELSE k + a[1][2]
=============================================================================
