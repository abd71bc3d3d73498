----------------------------- MODULE ChunksImpl -----------------------------
(* The chunk list as kanon implements it: a list of fixed-size chunks with   *)
(* read and write positions (the first of an empty list starts behind room   *)
(* for a header), a list of free ones, and writing in batches of at most Iov  *)
(* chunks.  Two lists.  Chunks (P16) observes.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS CS, HeadRoom, Iov, Ops, Sizes, Kinds, Mutant
VARIABLES s, q, fr, bad
C == INSTANCE Chunks
mv == <<q, fr>>
vars == <<s, mv, bad>>
Obs(A, name) == IF ENABLED A THEN A /\ UNCHANGED bad ELSE UNCHANGED mv /\ bad' = name
B == 1..2
(* c: chunks [r, d]: d the readable bytes (as runs), r where they begin; f: free ones (by their r: 0 when reset) *)
Init == s = [l |-> [b \in B |-> [c |-> <<>>, f |-> <<>>]], left |-> Ops, nb |-> 0] /\ C!CInit /\ bad = ""
Sz(k) == C!Size(k.d)
End(k) == k.r + Sz(k)                     \* the write position
Room(k) == CS - End(k)
RECURSIVE All(_)
All(c) == IF c = <<>> THEN <<>> ELSE C!Cat(c[1].d, All(Tail(c)))
RECURSIVE Total(_)
Total(c) == IF c = <<>> THEN 0 ELSE Sz(c[1]) + Total(Tail(c))
View(l) == [q |-> All(l.c), rs |-> Total(l.c), ok |-> 1, hr |-> IF l.c = <<>> THEN 0 ELSE 1, fr |-> Len(l.f)]
St(ls) == [b \in B |-> View(ls[b])]
Last(c) == c[Len(c)]
But(c) == SubSeq(c, 1, Len(c) - 1)
(* a chunk for the back (AddChunk) *)
Add(l) == LET k == IF l.f = <<>> THEN [r |-> 0, d |-> <<>>] ELSE [r |-> l.f[1], d |-> <<>>]
              h == IF l.c = <<>> THEN [k EXCEPT !.r = HeadRoom] ELSE k
          IN [c |-> Append(l.c, h), f |-> IF l.f = <<>> THEN <<>> ELSE Tail(l.f)]
RECURSIVE Fill(_, _)
Fill(l, d) ==
  IF d = <<>> THEN l
  ELSE LET a == Add(l) k == Last(a.c) n == IF Room(k) < C!Size(d) THEN Room(k) ELSE C!Size(d)
       IN Fill([a EXCEPT !.c = Append(But(a.c), [k EXCEPT !.d = C!Cat(@, C!Take(d, n))])], C!Drop(d, n))
App(l, d) ==
  IF d = <<>> THEN l
  ELSE IF l.c = <<>> THEN Fill(l, d)
  ELSE LET k == Last(l.c) n == IF Room(k) < C!Size(d) THEN Room(k) ELSE C!Size(d)
       IN IF Mutant = "droppart" /\ n < C!Size(d) THEN Fill([l EXCEPT !.c = Append(But(l.c), [k EXCEPT !.d = C!Cat(@, C!Take(d, n))])], C!Drop(d, n + 1))
          ELSE Fill([l EXCEPT !.c = Append(But(l.c), [k EXCEPT !.d = C!Cat(@, C!Take(d, n))])], C!Drop(d, n))
RECURSIVE Pre(_, _)
Pre(l, d) ==
  IF d = <<>> THEN l
  ELSE IF l.c = <<>> THEN Pre(Add(l), d)
  ELSE LET k == l.c[1] z == C!Size(d) n == IF k.r < z THEN k.r ELSE z
           e == IF Mutant = "prefront" THEN C!Take(d, n) ELSE C!Drop(d, z - n)
           o == IF Mutant = "prefront" THEN C!Drop(d, n) ELSE C!Take(d, z - n)
           m == [l EXCEPT !.c = <<[r |-> k.r - n, d |-> C!Cat(e, k.d)]>> \o Tail(l.c)]
       IN IF o = <<>> THEN m
          ELSE Pre([c |-> <<[r |-> CS, d |-> <<>>]>> \o m.c, f |-> IF m.f = <<>> THEN <<>> ELSE Tail(m.f)], o)
RECURSIVE Adv(_, _)
Adv(l, n) ==
  IF l.c = <<>> THEN l
  ELSE LET k == l.c[1] IN
       IF n > Sz(k) \/ (n = Sz(k) /\ Mutant # "keepempty")
       THEN Adv([c |-> Tail(l.c), f |-> <<IF Mutant = "noreset" THEN End(k) ELSE 0>> \o l.f], n - Sz(k))
       ELSE [l EXCEPT !.c = <<[r |-> k.r + n, d |-> C!Drop(k.d, n)]>> \o Tail(l.c)]
RECURSIVE AppAll(_, _)
AppAll(l, c) == IF c = <<>> THEN l ELSE AppAll(App(l, c[1].d), Tail(c))
Empty == [c |-> <<>>, f |-> <<>>]
Do(ls, nb, A, name) == s' = [s EXCEPT !.l = ls, !.left = @ - 1, !.nb = nb] /\ Obs(A, name)
L == s.l
D(n) == IF n = 0 THEN <<>> ELSE <<<<s.nb, n>>>>
Append_ == "app" \in Kinds /\ \E b \in B, n \in Sizes : LET ls == [L EXCEPT ![b] = App(@, D(n))] IN Do(ls, s.nb + n + 7, C!App(b, D(n), St(ls)), "App")
Prepend_ == "pre" \in Kinds /\ \E b \in B, n \in Sizes : LET ls == [L EXCEPT ![b] = Pre(@, D(n))] IN Do(ls, s.nb + n + 7, C!Pre(b, D(n), St(ls)), "Pre")
Advance == "adv" \in Kinds /\ \E b \in B : \E n \in 0..Total(L[b].c) : LET ls == [L EXCEPT ![b] = Adv(@, n)] IN Do(ls, s.nb, C!Adv(b, n, St(ls)), "Adv")
AppendList == "apl" \in Kinds /\ \E b \in B :
  LET x == L[b] y == L[3 - b]
      ls == [L EXCEPT ![b].c = IF Mutant = "aplfront" THEN y.c \o x.c ELSE x.c \o y.c, ![3 - b].c = <<>>]
  IN Do(ls, s.nb, C!AppendList(b, St(ls)), "Apl")
Copy == "copy" \in Kinds /\ \E b \in B :
  LET a == IF Mutant = "copyon" THEN L[b] ELSE Adv(L[b], Total(L[b].c)) ls == [L EXCEPT ![b] = AppAll(a, L[3 - b].c)]
  IN Do(ls, s.nb, C!Copy(b, St(ls)), "Copy")
(* a new list from the other one, swapped in *)
MoveNew == "move" \in Kinds /\ \E b \in B :
  LET ls == [L EXCEPT ![b] = L[3 - b], ![3 - b] = IF Mutant = "leave" THEN L[3 - b] ELSE Empty]
  IN Do(ls, s.nb, C!MoveNew(b, 1, St(ls)), "Mct")
Swap == "move" \in Kinds /\ LET ls == [b \in B |-> L[3 - b]] IN Do(ls, s.nb, C!Swap(St(ls)), "Swap")
Shrink == "shr" \in Kinds /\ \E b \in B, n \in 0..2 :
  LET ls == [L EXCEPT ![b].f = IF n >= Len(@) THEN @ ELSE SubSeq(@, Len(@) - n + 1 - (IF Mutant = "shrinkless" THEN 1 ELSE 0), Len(@))] IN Do(ls, s.nb, C!Shrink(b, n, St(ls)), "Shr")
Reserve == "shr" \in Kinds /\ \E b \in B, n \in 1..2 :
  LET ls == [L EXCEPT ![b].f = IF n <= Len(@) THEN @ ELSE @ \o [i \in 1..(n - Len(@)) |-> 0]] IN Do(ls, s.nb, C!ReserveFree(b, n, St(ls)), "Rfc")
(* what the kernel is given in one call, batch by batch; it takes k in all and then refuses *)
RECURSIVE Out(_, _)
Out(c, k) ==
  IF c = <<>> THEN <<>>
  ELSE LET m == IF Len(c) < Iov THEN Len(c) ELSE Iov
           bt == All(SubSeq(c, 1, m)) z == C!Size(bt)
       IN IF k < z /\ Mutant # "nextbatch" THEN C!Take(bt, k)
          ELSE IF k < z THEN C!Cat(C!Take(bt, k), Out(SubSeq(c, m + 1, Len(c)), IF k > 0 THEN 1 ELSE 0))
          ELSE C!Cat(bt, Out(SubSeq(c, m + 1, Len(c)), k - z))
(* k: how much the kernel takes; a call that takes nothing fails *)
Write == "wr" \in Kinds /\ \E b \in B : \E k \in 0..Total(L[b].c) :
  /\ L[b].c # <<>> /\ Total(L[b].c) > 0
  /\ LET d == Out(L[b].c, k) e == IF k = 0 THEN 11 ELSE 0
         ls == [L EXCEPT ![b] = Adv(@, C!Size(d))]
     IN /\ s' = [s EXCEPT !.left = @ - 1, !.l = L] /\ Obs(C!Write(b, d, IF Mutant = "more" /\ k > 0 THEN k - 1 ELSE C!Size(d), IF Mutant = "noerr" THEN 0 ELSE e, e, St(L)), "Write")
Next == s.left > 0 /\ bad = "" /\ (Append_ \/ Prepend_ \/ Advance \/ AppendList \/ Copy \/ MoveNew \/ Swap \/ Shrink \/ Reserve \/ Write)
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
(* positions stay inside a chunk, chunks in use hold something, free ones are reset *)
Shape == \A b \in B : /\ \A i \in 1..Len(L[b].c) : L[b].c[i].r \in 0..CS /\ End(L[b].c[i]) <= CS /\ Sz(L[b].c[i]) > 0
                      /\ \A i \in 1..Len(L[b].f) : L[b].f[i] = 0
=============================================================================
