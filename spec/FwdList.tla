------------------------------ MODULE FwdList ------------------------------
(* Contract of the forward list (property P24): three lists of elements, an   *)
(* element is a number whose tens and above are its key.                      *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES
  q,     \* contents
  held   \* nodes taken out of the lists, last first in
lvars == <<q, held>>
LInit == q = <<<<>>, <<>>, <<>>>> /\ held = <<>>
Key(x) == x \div 10
(* total: a position beyond the end is the end *)
Mid(s, a, b) == SubSeq(s, IF a < 1 THEN 1 ELSE a, IF b > Len(s) THEN Len(s) ELSE b)
Front(s, n) == Mid(s, 1, n)
Rest(s, n) == Mid(s, n + 1, Len(s))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Rep(n, v) == [i \in 1..n |-> v]
(* stable merge: equal elements of a come first *)
RECURSIVE Merge(_, _)
Merge(a, b) ==
  IF a = <<>> THEN b ELSE IF b = <<>> THEN a
  ELSE IF Key(b[1]) < Key(a[1]) THEN <<b[1]>> \o Merge(a, Tail(b)) ELSE <<a[1]>> \o Merge(Tail(a), b)
RECURSIVE Sort(_)
Sort(s) == IF Len(s) < 2 THEN s ELSE LET h == Len(s) \div 2 IN Merge(Sort(Front(s, h)), Sort(Rest(s, h)))
(* descending and stable *)
SortDown(s) == Rev(Sort(Rev(s)))
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Sorted(s) == \A i \in 1..(Len(s) - 1) : Key(s[i]) <= Key(s[i + 1])
Perm(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Count(s, s[i]) = Count(t, s[i])
RECURSIVE Uniq(_)
Uniq(s) == IF Len(s) < 2 THEN s ELSE IF Key(s[1]) = Key(s[2]) THEN Uniq(<<s[1]>> \o Rest(s, 2)) ELSE <<s[1]>> \o Uniq(Tail(s))
Without(s, k) == SelectSeq(s, LAMBDA x : Key(x) # k)
Keys(s) == [i \in 1..Len(s) |-> Key(s[i])]
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
              ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
B(x) == IF x THEN 1 ELSE 0
(* the observable state is that of the contents nq *)
Becomes(nq, nh, st, lv, bad) ==
  /\ q' = nq /\ held' = nh
  /\ \A i \in 1..3 : LET s == nq[i] IN
       /\ st[i].q = s /\ st[i].n = Len(s) /\ st[i].e = B(s = <<>>)
       /\ st[i].fr = (IF s = <<>> THEN -1 ELSE s[1]) /\ st[i].bk = (IF s = <<>> THEN -1 ELSE s[Len(s)])
  /\ lv = Len(nq[1]) + Len(nq[2]) + Len(nq[3]) + Len(nh) /\ bad = 0
Put(a, v) == [q EXCEPT ![a] = v]
Ins(a, p, d) == Put(a, Front(q[a], p) \o d \o Rest(q[a], p))
Era(a, p, c) == Put(a, Front(q[a], p) \o Rest(q[a], p + c))
Resize(a, c, v) == Put(a, IF c <= Len(q[a]) THEN Front(q[a], c) ELSE q[a] \o Rep(c - Len(q[a]), v))
(* elements strictly between positions f and t of m go after position p of a *)
Splice(a, m, p, f, t) ==
  LET x == Mid(q[m], f + 1, t - 1) n == Len(x)
      s == Front(q[m], f) \o Rest(q[m], t - 1)
  IN IF a # m THEN [q EXCEPT ![a] = Front(q[a], p) \o x \o Rest(q[a], p), ![m] = s]
     ELSE IF p >= f /\ p < t THEN q
     ELSE LET k == IF p < f THEN p ELSE p - n IN Put(a, Front(s, k) \o x \o Rest(s, k))
First(s, k, p) == {i \in (p + 1)..Len(s) : Key(s[i]) = k}
(* the position before the first element with key k behind position p *)
Before(s, k, p) == IF First(s, k, p) = {} THEN Len(s) + 1
                   ELSE (CHOOSE i \in First(s, k, p) : \A j \in First(s, k, p) : i <= j) - 1
=============================================================================
