------------------------------ MODULE Chunks -------------------------------
(* Contract of the chunk list (property P16): a byte queue that can be        *)
(* written to a descriptor.                                                   *)
EXTENDS ByteQueue
VARIABLES
  q,    \* content of each list
  fr    \* free chunks each list keeps
cvars == <<q, fr>>
B == 1..2
CInit == q = [i \in B |-> <<>>] /\ fr = [i \in B |-> 0]
Becomes(nq, st) ==
  /\ q' = nq
  /\ \A i \in B : /\ st[i].q = nq[i] /\ st[i].rs = Size(nq[i]) /\ st[i].ok = 1
                  /\ st[i].hr = (IF nq[i] = <<>> THEN 0 ELSE 1)
  /\ fr' = [i \in B |-> st[i].fr]
Put(b, v) == [q EXCEPT ![b] = v]
App(b, d, st) == Becomes(Put(b, Cat(q[b], d)), st)
Pre(b, d, st) == Becomes(Put(b, Cat(d, q[b])), st)
Adv(b, n, st) == n <= Size(q[b]) /\ Becomes(Put(b, Drop(q[b], n)), st)
TakeOut(b, n, d, st) == n <= Size(q[b]) /\ d = Take(q[b], n) /\ Becomes(Put(b, Drop(q[b], n)), st)
Peek(b, n, d, st) == n <= Size(q[b]) /\ d = Take(q[b], n) /\ Becomes(q, st)
(* the other list's content moves to the back of b *)
AppendList(b, st) == Becomes([q EXCEPT ![b] = Cat(q[b], q[3 - b]), ![3 - b] = <<>>], st)
Copy(b, st) == Becomes(Put(b, q[3 - b]), st)
MoveNew(b, n, st) == n = 1 /\ Becomes([q EXCEPT ![b] = q[3 - b], ![3 - b] = <<>>], st)
(* a list that is assigned from is left in some valid state *)
MoveAssign(b, st) == \E v \in {<<>>, q[b]} : Becomes([q EXCEPT ![b] = q[3 - b], ![3 - b] = v], st)
Swap(st) == Becomes([i \in B |-> q[3 - i]], st)
Same(st) == Becomes(q, st)
Shrink(b, n, st) == Becomes(q, st) /\ st[b].fr <= n /\ st[b].fr = (IF fr[b] < n THEN fr[b] ELSE n)
ReserveFree(b, n, st) == Becomes(q, st) /\ st[b].fr >= n
(* the kernel took the bytes d, n were reported; kerr is the kernel's error *)
Write(b, d, n, err, kerr, st) ==
  /\ n = Size(d) /\ n <= Size(q[b]) /\ d = Take(q[b], n) /\ err = kerr
  /\ n = 0 => err # 0
  /\ Becomes(q, st)
=============================================================================
