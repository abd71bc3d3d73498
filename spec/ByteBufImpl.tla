----------------------------- MODULE ByteBufImpl -----------------------------
(* The network buffer as kanon implements it: one array of bytes with a read  *)
(* and a write index, whose content is moved to the front when that makes     *)
(* enough room and which grows otherwise; reads go into the free room and,    *)
(* when that is small, into spare bytes that are appended.  ByteBuf (P15)     *)
(* observes.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Room, Extra, Ops, Sizes, Kinds, Mutant
VARIABLES s, q, ps, bad
C == INSTANCE ByteBuf
mv == <<q, ps>>
vars == <<s, mv, bad>>
Obs(A, name) == IF ENABLED A THEN A /\ UNCHANGED bad ELSE UNCHANGED mv /\ bad' = name
B == 1..2
P == 8
(* m: the array (-1: bytes nobody wrote), r, w: indices *)
Fresh == [m |-> [i \in 1..(P + Room) |-> -1], r |-> P, w |-> P]
Init == s = [b |-> [i \in B |-> Fresh], nb |-> 0, left |-> Ops] /\ C!BInit /\ bad = ""
Rs(x) == x.w - x.r
Ws(x) == Len(x.m) - x.w
RECURSIVE Runs(_)
Runs(d) == IF d = <<>> THEN <<>> ELSE C!Cat(<<<<d[1], 1>>>>, Runs(Tail(d)))
Bytes(x, a, n) == SubSeq(x.m, a + 1, a + n)
View(x) == [q |-> Runs(Bytes(x, x.r, Rs(x))), rs |-> Rs(x), ok |-> 1, ws |-> Ws(x), ps |-> x.r]
St(bs) == [i \in B |-> View(bs[i])]
Store(x, a, d) == [x EXCEPT !.m = [i \in 1..Len(@) |-> IF i > a /\ i <= a + Len(d) THEN d[i - a] ELSE @[i]]]
Grow(x, n) == IF n <= Len(x.m) THEN x ELSE [x EXCEPT !.m = @ \o [i \in 1..(n - Len(@)) |-> -1]]
(* one byte after the other, as std::copy does; from the end with copy_backward *)
RECURSIVE Copy1(_, _, _, _, _)
Copy1(m, f, t, n, i) == IF i = n THEN m
                        ELSE LET k == IF Mutant = "backcopy" THEN n - 1 - i ELSE i IN Copy1([m EXCEPT ![t + k + 1] = m[f + k + 1]], f, t, n, i + 1)
ToFront(x) == LET n == Rs(x) IN [m |-> Copy1(x.m, x.r, P, n, 0), r |-> P, w |-> IF Mutant = "keepw" THEN x.w ELSE P + n]
Reserve(x, n) == IF n <= Ws(x) THEN x
                 ELSE IF n + (IF Mutant = "noprefix" THEN 0 ELSE P) > x.r + Ws(x) THEN Grow(x, IF Mutant = "growsmall" THEN Rs(x) + P + n ELSE x.w + n)
                 ELSE ToFront(x)
App(x, d) == LET y == Reserve(x, Len(d)) IN [Store(y, y.w, d) EXCEPT !.w = y.w + Len(d)]
Pre(x, d) == [Store(x, x.r - Len(d), d) EXCEPT !.r = @ - Len(d)]
Adv(x, n) == IF n = Rs(x) THEN [x EXCEPT !.r = P, !.w = IF Mutant = "resetr" THEN @ ELSE P] ELSE [x EXCEPT !.r = @ + n]
Cut(x, n) == IF n >= Len(x.m) THEN x ELSE [x EXCEPT !.m = SubSeq(@, 1, n)]
Shr(x, n) == LET y == IF x.r > P \/ Mutant = "shrany" THEN ToFront(x) ELSE x IN Cut(y, (IF Mutant = "shrr" THEN Rs(y) ELSE y.w) + n)
D(n) == [i \in 1..n |-> (s.nb + i) % 256]
(* an index outside the array: the program would be in trouble *)
Sound(bs) == \A i \in B : bs[i].r <= bs[i].w /\ bs[i].w <= Len(bs[i].m) /\ bs[i].r >= 0
Go(bs, n, A, name) == IF Sound(bs) THEN s' = [s EXCEPT !.b = bs, !.left = @ - 1, !.nb = @ + n] /\ Obs(A, name)
                      ELSE s' = [s EXCEPT !.left = 0] /\ bad' = "range" /\ UNCHANGED mv
Put(i, x) == [s.b EXCEPT ![i] = x]
On(k) == k \in Kinds
(* the second buffer only takes part in copies and swaps once it was written *)
Append_ == On("app") /\ \E i \in B, n \in Sizes : LET bs == Put(i, App(s.b[i], D(n))) IN Go(bs, n + 5, C!App(i, Runs(D(n)), St(bs)), "App")
Prepend_ == On("pre") /\ \E i \in B, n \in {2, 8} : s.b[i].r >= P /\ LET bs == Put(i, Pre(s.b[i], D(n))) IN Go(bs, n + 5, C!Pre(i, Runs(D(n)), St(bs)), "Pre")
Advance == On("adv") /\ \E i \in B : \E n \in 1..Rs(s.b[i]) : LET bs == Put(i, Adv(s.b[i], n)) IN Go(bs, 0, C!Adv(i, n, St(bs)), "Adv")
Retrieve == On("take") /\ \E i \in B : \E n \in 1..Rs(s.b[i]) :
  LET d == Bytes(s.b[i], s.b[i].r, n) bs == Put(i, Adv(s.b[i], n)) IN Go(bs, 0, C!TakeOut(i, n, Runs(d), St(bs)), "Take")
Shrink == On("shr") /\ \E i \in B, n \in {0, 2} : LET bs == Put(i, Shr(s.b[i], n)) IN Go(bs, 0, C!Same(St(bs)), "Shrink")
Res == On("res") /\ \E i \in B, n \in Sizes : LET bs == Put(i, Reserve(s.b[i], n)) IN Go(bs, 0, C!Reserve(i, n, St(bs)), "Reserve")
Swap == On("swap") /\ LET bs == [i \in B |-> s.b[3 - i]] IN Go(bs, 0, C!Swap(St(bs)), "Swap")
CopyOf == On("swap") /\ \E i \in B : LET bs == Put(i, s.b[3 - i]) IN Go(bs, 0, C!Copy(i, St(bs)), "Copy")
(* the kernel has n bytes for one readv: as many as fit into the room and the spare bytes *)
Read == On("read") /\ \E i \in B, n \in 0..(Room + Extra + 2) :
  LET x == s.b[i] ws == Ws(x)
      two == ws < Extra
      t == ws + (IF two THEN Extra ELSE 0)
      k == IF n < t THEN n ELSE t
      d == D(k)
      y == Store(x, x.w, SubSeq(d, 1, IF k < ws THEN k ELSE ws))
      bs == Put(i, IF k <= ws THEN [y EXCEPT !.w = @ + k]
                   ELSE IF Mutant = "overrun" THEN [y EXCEPT !.w = @ + k]
                   ELSE App([y EXCEPT !.w = IF Mutant = "nofull" THEN @ ELSE Len(y.m)], IF Mutant = "extrawhole" THEN SubSeq(d, 1, k - ws) ELSE SubSeq(d, ws + 1, k)))
  IN Go(bs, k + 5, C!Read(i, Runs(d), k, 0, n - k, St(bs)), "Read")
ReadFails == On("read") /\ \E i \in B : Go(s.b, 0, C!Read(i, <<>>, -1, 11, 0, St(s.b)), "Read")
Next == s.left > 0 /\ bad = "" /\ (Append_ \/ Prepend_ \/ Advance \/ Retrieve \/ Shrink \/ Res \/ Swap \/ CopyOf \/ Read \/ ReadFails)
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
(* between the indices lies what was written, and nothing else *)
Shape == \A i \in B : LET x == s.b[i] IN /\ x.r <= x.w /\ x.w <= Len(x.m)
                                           /\ \A k \in (x.r + 1)..x.w : x.m[k] # -1
=============================================================================
