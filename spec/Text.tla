-------------------------------- MODULE Text --------------------------------
(* Contract of the text streams and casts (property P30). Text is a sequence  *)
(* of bytes. A number is a sign and <<a, b, c>>: a*10^18 + b*10^9 + c.        *)
EXTENDS Integers, Sequences
VARIABLE t     \* the text of the two streams
xvars == <<t>>
Tail9(n) == [i \in 1..9 |-> 48 + ((n \div (10 ^ (9 - i))) % 10)]
RECURSIVE Strip(_)
Strip(s) == IF Len(s) > 1 /\ s[1] = 48 THEN Strip(Tail(s)) ELSE s
Digits(d) == Strip(Tail9(d[1]) \o Tail9(d[2]) \o Tail9(d[3]))
Whole(neg, d) == (IF neg = 1 THEN <<45>> ELSE <<>>) \o Digits(d)
Hex(x) == IF x < 10 THEN 48 + x ELSE 55 + x
Hex4(w) == <<Hex(w \div 4096), Hex((w \div 256) % 16), Hex((w \div 16) % 16), Hex(w % 16)>>
Ptr(w) == IF \A i \in 1..4 : w[i] = 0 THEN <<40, 110, 117, 108, 108, 41>>
          ELSE <<48, 120>> \o Hex4(w[1]) \o Hex4(w[2]) \o Hex4(w[3]) \o Hex4(w[4])
Bool(b) == IF b = 1 THEN <<84, 114, 117, 101>> ELSE <<70, 97, 108, 115, 101>>
(* one value as text, and the room beyond its length its writer may insist on *)
Show(a) == CASE a[1] = "i" -> Whole(a[2], a[3]) [] a[1] = "p" -> Ptr(a[2]) [] a[1] = "b" -> Bool(a[2])
             [] a[1] = "c" -> <<a[2]>> [] a[1] \in {"s", "f"} -> a[2]
Extra(a) == CASE a[1] \in {"i", "f"} -> 32 [] a[1] = "p" -> 18 [] OTHER -> 0
(* a piece is there as a whole, or not at all for want of room (the last byte of the room ends the text) *)
Put(s, a, size, new) ==
  LET p == Show(a) IN
  \/ new = s \o p /\ Len(s) + Len(p) < size
  \/ new = s /\ (Len(s) + Len(p) >= size \/ (Extra(a) > 0 /\ size - Len(s) <= Extra(a)))
(* a format: %% is a percent sign, % the next value *)
RECURSIVE Format(_, _)
Format(f, as) ==
  IF f = <<>> THEN <<>>
  ELSE IF f[1] # 37 THEN <<f[1]>> \o Format(Tail(f), as)
  ELSE IF Len(f) > 1 /\ f[2] = 37 THEN <<37>> \o Format(SubSeq(f, 3, Len(f)), as)
  ELSE Show(as[1]) \o Format(Tail(f), Tail(as))
RECURSIVE SubSequence(_, _)
SubSequence(s, u) == IF s = <<>> THEN TRUE ELSE IF u = <<>> THEN FALSE ELSE IF s[1] = u[1] THEN SubSequence(Tail(s), Tail(u)) ELSE SubSequence(s, Tail(u))
FmtIn(f, as, size, room, new) ==
  LET u == Format(f, as) IN
  IF Len(u) + room < size THEN new = u ELSE Len(new) < size /\ SubSequence(new, u)
Fmt(f, as, size, new) == FmtIn(f, as, size, 33, new)
(* reading a number: the digits in front of the text *)
RECURSIVE Run(_)
Run(s) == IF s # <<>> /\ s[1] \in 48..57 THEN <<s[1]>> \o Run(Tail(s)) ELSE <<>>
Neg(s) == IF s = <<>> THEN FALSE ELSE s[1] = 45
Body(s) == IF Neg(s) THEN Tail(s) ELSE s
Nine(s) == (s[1] - 48) * 100000000 + (s[2] - 48) * 10000000 + (s[3] - 48) * 1000000 + (s[4] - 48) * 100000 + (s[5] - 48) * 10000
           + (s[6] - 48) * 1000 + (s[7] - 48) * 100 + (s[8] - 48) * 10 + s[9] - 48
Pad(s) == [i \in 1..27 |-> IF i <= 27 - Len(s) THEN 48 ELSE s[i - 27 + Len(s)]]
Num(s) == LET p == Pad(s) IN <<Nine(SubSeq(p, 1, 9)), Nine(SubSeq(p, 10, 18)), Nine(SubSeq(p, 19, 27))>>
Le(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] <= b[3])))
(* what the types hold: largest value, and the largest magnitude below zero *)
Max(k) == CASE k = "u8" -> <<0, 0, 255>> [] k = "i8" -> <<0, 0, 127>> [] k = "u16" -> <<0, 0, 65535>> [] k = "i16" -> <<0, 0, 32767>>
            [] k = "u32" -> <<0, 4, 294967295>> [] k = "i32" -> <<0, 2, 147483647>>
            [] k = "u64" -> <<18, 446744073, 709551615>> [] k = "i64" -> <<9, 223372036, 854775807>>
Low(k) == CASE k = "i8" -> <<0, 0, 128>> [] k = "i16" -> <<0, 0, 32768>> [] k = "i32" -> <<0, 2, 147483648>> [] k = "i64" -> <<9, 223372036, 854775808>> [] OTHER -> <<0, 0, 0>>
Fits(k, neg, d) == IF neg THEN Le(d, Low(k)) ELSE Le(d, Max(k))
(* r: <<>> for no value, or <<sign, digits>>; whole: nothing may follow the number *)
Read(k, s, whole, r) ==
  LET g == Run(Body(s)) IN
  IF g = <<>> THEN IF s = <<>> THEN TRUE ELSE IF s[1] \in {43, 45, 32, 9} THEN TRUE ELSE r = <<>>      \* spaces and signs in front are not asked
  ELSE IF Len(g) > 27 THEN TRUE
  ELSE IF whole /\ Len(g) < Len(Body(s)) THEN r = <<>>
  ELSE IF ~Fits(k, Neg(s), Num(g)) THEN TRUE ELSE r = <<IF Neg(s) /\ Num(g) # <<0, 0, 0>> THEN 1 ELSE 0, Num(g)>>
=============================================================================
