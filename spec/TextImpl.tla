------------------------------ MODULE TextImpl ------------------------------
(* FmtStream over a FixedBuffer: the parser's steps and the digits of integers *)
(* written one by one (lowest first, then turned around), for all short       *)
(* formats and arguments at every fill level, against Text.                   *)
EXTENDS Text
CONSTANTS Size,        \* bytes of the stream
          K,           \* an integer is written while more than K bytes are free
          MaxF,        \* length of a format
          Ints, Mutant
VARIABLES f0, as0,     \* the question
          f, as,       \* what is left of it
          len, pc, num, n
vars == <<t, f0, as0, f, as, len, pc, num, n>>
\* t: the bytes of the stream, t[Size + 1..] is memory it does not own
Behind == 37           \* what follows the format in memory
Words(m) == UNION {[1..j -> {37, 65}] : j \in 0..m}
Args == ({<<"i", g, <<0, 0, x>>>> : x \in Ints, g \in {0, 1}} \ {<<"i", 1, <<0, 0, 0>>>>})
        \cup {<<"s", w>> : w \in {<<>>, <<37>>, <<66, 37, 67>>}}
RECURSIVE Holes(_)
Holes(w) == IF w = <<>> THEN 0 ELSE IF w[1] # 37 THEN Holes(Tail(w))
            ELSE IF Len(w) > 1 /\ w[2] = 37 THEN Holes(SubSeq(w, 3, Len(w))) ELSE 1 + Holes(Tail(w))
Init == /\ f0 \in Words(MaxF) /\ Holes(f0) <= 2 /\ as0 \in [1..Holes(f0) -> Args]
        /\ f = f0 /\ as = as0 /\ len = 0 /\ pc = "find" /\ num = 0 /\ n = 0
        /\ t = [i \in 1..Size + 8 |-> 99]
\* the cells and length after appending the pieces of ps, each as a whole or not at all
Write(c, l, p) == [i \in 1..Size + 8 |-> IF i > l /\ i <= l + Len(p) THEN p[i - l] ELSE IF i = l + Len(p) + 1 THEN 0 ELSE c[i]]
RECURSIVE App(_, _, _)
App(c, l, ps) ==
  IF ps = <<>> THEN <<c, l>>
  ELSE LET p == ps[1] IN
       IF Len(p) < Size - l THEN App(Write(c, l, p), l + Len(p), Tail(ps))
       ELSE IF Mutant = "half" THEN LET h == SubSeq(p, 1, Size - l - 1) IN App(Write(c, l, h), l + Len(h), Tail(ps))
       ELSE App(c, l, Tail(ps))
Append2(ps) == LET r == App(t, len, ps) IN t' = r[1] /\ len' = r[2]
First(w) == CHOOSE i \in 1..Len(w) : w[i] = 37 /\ \A j \in 1..i - 1 : w[j] # 37
Has(w) == \E i \in 1..Len(w) : w[i] = 37
Next37(i) == IF i < Len(f) THEN f[i + 1] = 37 ELSE Mutant = "beyond" /\ Behind = 37
Find ==
  /\ pc = "find" /\ UNCHANGED <<num, n>>
  /\ IF ~Has(f) THEN Append2(<<f>>) /\ pc' = "done" /\ UNCHANGED <<f, as>>
     ELSE LET i == First(f) IN
          IF Next37(i) \/ as = <<>>
          THEN /\ Append2(<<SubSeq(f, 1, i - 1), <<37>>>>) /\ f' = SubSeq(f, i + 2, Len(f)) /\ pc' = "find"
               /\ as' = IF Mutant = "swallow" /\ as # <<>> THEN Tail(as) ELSE as
          ELSE Append2(<<SubSeq(f, 1, i - 1)>>) /\ f' = SubSeq(f, i + 1, Len(f)) /\ pc' = "arg" /\ UNCHANGED as
Arg ==
  /\ pc = "arg"
  /\ LET a == IF Mutant = "order" THEN as[Len(as)] ELSE as[1]
         rest == IF Mutant = "order" THEN SubSeq(as, 1, Len(as) - 1) ELSE Tail(as) IN
     /\ as' = rest
     /\ IF a[1] = "s"
        THEN IF Mutant = "again" THEN f' = a[2] \o f /\ pc' = "find" /\ UNCHANGED <<t, len, num, n>>
             ELSE Append2(<<a[2]>>) /\ pc' = "find" /\ UNCHANGED <<f, num, n>>
        ELSE IF Size - len > K \/ Mutant = "room"
             THEN num' = <<a[2], a[3][3]>> /\ n' = 0 /\ pc' = "digit" /\ UNCHANGED <<f, t, len>>
             ELSE pc' = "find" /\ UNCHANGED <<f, t, len, num, n>>
\* one more digit, or the sign, the zero byte and the turning
Turn(c, k) == [i \in 1..Size + 8 |-> IF i > len /\ i <= len + k THEN c[len + len + k + 1 - i] ELSE IF i = len + k + 1 THEN 0 ELSE c[i]]
Digit ==
  /\ pc = "digit" /\ UNCHANGED <<f, as>>
  /\ IF num[2] > 0 \/ (n = 0 /\ Mutant # "zero")
     THEN /\ t' = [t EXCEPT ![len + n + 1] = 48 + (num[2] % 10)] /\ num' = <<num[1], num[2] \div 10>>
          /\ n' = n + 1 /\ UNCHANGED <<len, pc>>
     ELSE LET c == IF num[1] = 1 /\ Mutant # "sign" THEN [t EXCEPT ![len + n + 1] = 45] ELSE t
              k == IF num[1] = 1 /\ Mutant # "sign" THEN n + 1 ELSE n IN
          t' = Turn(c, k) /\ len' = len + k /\ n' = 0 /\ num' = 0 /\ pc' = "find"
Stop == pc = "done" /\ UNCHANGED <<f, as, t, len, num, n, pc>>
Next == (Find \/ Arg \/ Digit \/ Stop) /\ UNCHANGED <<f0, as0>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Text0 == SubSeq(t, 1, len)
Inside == \A i \in Size + 1..Size + 8 : t[i] = 99                 \* nothing is written behind the stream
Ended == pc = "done" => len < Size /\ t[len + 1] = 0
Right == pc = "done" => FmtIn(f0, as0, Size, K, Text0)
\* every piece is there as a whole or left out for want of room
RECURSIVE Pieces(_, _, _)
Pieces(w, bs, s) ==
  IF w = <<>> THEN {s}
  ELSE LET i == IF Has(w) THEN First(w) ELSE Len(w) + 1
           lit == SubSeq(w, 1, i - 1)
           s1 == IF Len(lit) < Size - Len(s) THEN s \o lit ELSE s IN
       IF i > Len(w) THEN {s1}
       ELSE IF i < Len(w) /\ w[i + 1] = 37
       THEN Pieces(SubSeq(w, i + 2, Len(w)), bs, IF 1 < Size - Len(s1) THEN s1 \o <<37>> ELSE s1)
       ELSE LET p == Show(bs[1]) IN
            UNION {Pieces(SubSeq(w, i + 1, Len(w)), Tail(bs), x) :
                     x \in (IF Len(p) < Size - Len(s1) THEN {s1 \o p} ELSE {s1})
                           \cup (IF bs[1][1] = "i" /\ Size - Len(s1) <= K THEN {s1} ELSE {})}
Whole1 == pc = "done" => Text0 \in Pieces(f0, as0, <<>>)
Ends == <>(pc = "done")
=============================================================================
