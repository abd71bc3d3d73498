------------------------------ MODULE ByteBuf ------------------------------
(* Contract of the network buffer (property P15): a byte queue with room for  *)
(* a header in front of it.                                                   *)
EXTENDS ByteQueue
VARIABLES
  q,    \* readable content of each buffer
  ps    \* room in front of it
bvars == <<q, ps>>
B == 1..2
BInit == q = [i \in B |-> <<>>] /\ ps = [i \in B |-> 8]
Min(a, b) == IF a < b THEN a ELSE b
(* what an observer sees of the buffers after an operation that leaves the    *)
(* contents nq; at least lo[i] bytes can be prepended to buffer i             *)
Becomes(nq, lo, st) ==
  /\ q' = nq
  /\ \A i \in B : /\ st[i].q = nq[i] /\ st[i].rs = Size(nq[i]) /\ st[i].ok = 1
                  /\ st[i].ws >= 0 /\ st[i].ps >= lo[i]
  /\ ps' = [i \in B |-> st[i].ps]
Low == [i \in B |-> Min(ps[i], 8)]
Put(b, v) == [q EXCEPT ![b] = v]
Keep(b, v, st) == Becomes(Put(b, v), [Low EXCEPT ![b] = IF v = <<>> THEN 8 ELSE @], st)
App(b, d, st) == Becomes(Put(b, Cat(q[b], d)), Low, st)
Pre(b, d, st) == ps[b] >= 8 /\ Becomes(Put(b, Cat(d, q[b])), [Low EXCEPT ![b] = ps[b] - Size(d)], st)
Adv(b, n, st) == n <= Size(q[b]) /\ Keep(b, Drop(q[b], n), st)
(* the first n bytes are d and are removed / stay *)
TakeOut(b, n, d, st) == n <= Size(q[b]) /\ d = Take(q[b], n) /\ Keep(b, Drop(q[b], n), st)
Peek(b, n, d, st) == n <= Size(q[b]) /\ d = Take(q[b], n) /\ Becomes(q, Low, st)
Same(st) == Becomes(q, Low, st)
Reserve(b, n, st) == st[b].ws >= n /\ Becomes(q, Low, st)
(* f: found, d: the text before the delimiter, at position k; taken if t *)
Find(b, k, f, t, d, st) ==
  /\ f = (IF k >= 0 THEN 1 ELSE 0)
  /\ d = (IF k >= 0 THEN Take(q[b], k) ELSE <<>>)
  /\ IF k >= 0 /\ t = 1 THEN Keep(b, Drop(q[b], k), st) ELSE Becomes(q, Low, st)
Swap(st) == Becomes([i \in B |-> q[3 - i]], [i \in B |-> Min(ps[3 - i], 8)], st)
Copy(b, st) == Becomes(Put(b, q[3 - b]), [Low EXCEPT ![b] = Min(ps[3 - b], 8)], st)
(* a read of a descriptor from which the kernel returned the bytes d *)
Read(b, d, n, err, av, st) ==
  /\ IF n < 0 THEN d = <<>> /\ err # 0 ELSE n = Size(d)
  /\ err \in {11, 35} => d = <<>> /\ av = 0
  /\ Becomes(Put(b, Cat(q[b], d)), Low, st)
=============================================================================
