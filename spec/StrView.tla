------------------------------ MODULE StrView ------------------------------
(* Contract of the string view (property P29): a view is the sequence of the  *)
(* bytes it covers, any byte value included; nothing around them has a say.   *)
(* Positions count from 0; -1 stands for npos.                                *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE q      \* the two views
svars == <<q>>
SInit == q = <<<<>>, <<>>>>
Min(a, b) == IF a < b THEN a ELSE b
First(S) == IF S = {} THEN -1 ELSE CHOOSE i \in S : \A j \in S : i <= j
Last(S) == IF S = {} THEN -1 ELSE CHOOSE i \in S : \A j \in S : j <= i
At(s, v, i) == i + Len(v) <= Len(s) /\ \A j \in 1..Len(v) : s[i + j] = v[j]
In(v, x) == \E j \in 1..Len(v) : v[j] = x
From(s, k) == {i \in 0..Len(s) - 1 : k # -1 /\ i >= k}
UpTo(s, k) == {i \in 0..Len(s) - 1 : k = -1 \/ i <= k}
B(x) == IF x THEN 1 ELSE 0
(* searches and tests; v is what is looked for, k where the search starts *)
Answer(f, s, v, k) ==
  CASE f = "find"  -> First({i \in 0..Len(s) : k # -1 /\ i >= k /\ At(s, v, i)})
    [] f = "rfind" -> Last({i \in UpTo(s, k) : At(s, v, i)})
    [] f = "has"   -> B(\E i \in 0..Len(s) : At(s, v, i))
    [] f = "sw"    -> B(At(s, v, 0))
    [] f = "ew"    -> B(Len(v) <= Len(s) /\ At(s, v, Len(s) - Len(v)))
    [] f = "ffo"   -> First({i \in From(s, k) : In(v, s[i + 1])})
    [] f = "flo"   -> Last({i \in UpTo(s, k) : In(v, s[i + 1])})
    [] f = "ffn"   -> First({i \in From(s, k) : ~In(v, s[i + 1])})
    [] f = "fln"   -> Last({i \in UpTo(s, k) : ~In(v, s[i + 1])})
(* lexicographic order of the bytes as numbers 0..255 *)
RECURSIVE Cmp(_, _)
Cmp(s, v) == IF s = <<>> /\ v = <<>> THEN 0 ELSE IF s = <<>> THEN -1 ELSE IF v = <<>> THEN 1
             ELSE IF s[1] < v[1] THEN -1 ELSE IF s[1] > v[1] THEN 1 ELSE Cmp(Tail(s), Tail(v))
Low(x) == IF x \in 65..90 THEN x + 32 ELSE x
Up(x) == IF x \in 97..122 THEN x - 32 ELSE x
Map(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]
Rels(c) == <<B(c = 0), B(c # 0), B(c < 0), B(c > 0), B(c <= 0), B(c >= 0)>>
(* the pieces between the non-overlapping occurrences of a separator *)
RECURSIVE Split(_, _)
Split(s, v) == LET i == Answer("find", s, v, 0) IN
  IF i = -1 THEN <<s>> ELSE <<SubSeq(s, 1, i)>> \o Split(SubSeq(s, i + Len(v) + 1, Len(s)), v)
Sub(s, pos, n) == SubSeq(s, pos + 1, IF n = -1 THEN Len(s) ELSE Min(Len(s), pos + n))
=============================================================================
