------------------------------- MODULE Codec -------------------------------
(* Contract of length-framed messages (property P26), one record per        *)
(* connection.  The peer's stream is a sequence of frames.                  *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE cs   \* connection -> record
cvars == <<cs>>
Fresh == [fr |-> <<>>,   \* frames of the incoming stream: [m, n, ok, end]
          len |-> 0,     \* bytes of the stream written so far
          arr |-> 0,     \* bytes that arrived
          got |-> 0,     \* messages delivered
          out |-> <<>>,  \* messages given to the codec: [m, n, t, ret, done, sure]
          shut |-> FALSE, hard |-> FALSE, live |-> FALSE, fin |-> FALSE]
CInit == cs = <<>>
Set(c, r) == cs' = [x \in DOMAIN cs \cup {c} |-> IF x = c THEN r ELSE cs[x]]
Has(c) == c \in DOMAIN cs
Conn(c) == ~Has(c) /\ Set(c, Fresh)
Up(c) == Has(c) /\ ~cs[c].live /\ Set(c, [cs[c] EXCEPT !.live = TRUE])
(* ---- receiving *)
HeadLen == 4
FirstBad(r) == {i \in 1..Len(r.fr) : ~r.fr[i].ok}
Valid(r, i) == \A j \in 1..i : r.fr[j].ok
Whole(r) == {i \in 1..Len(r.fr) : Valid(r, i) /\ r.fr[i].end <= r.arr}
(* the invalid header has arrived: the connection is to be shut down *)
Broken(r) == \E i \in FirstBad(r) : Valid(r, i - 1) /\ r.fr[i].end <= r.arr
Frame(c, m, n) == /\ Has(c) /\ Set(c, [cs[c] EXCEPT !.fr = Append(@, [m |-> m, n |-> n, ok |-> TRUE, end |-> cs[c].len + HeadLen + n]), !.len = @ + HeadLen + n])
BadFrame(c) == /\ Has(c) /\ Set(c, [cs[c] EXCEPT !.fr = Append(@, [m |-> 0, n |-> 0, ok |-> FALSE, end |-> cs[c].len + HeadLen]), !.len = @ + HeadLen])
Junk(c, n) == Has(c) /\ Set(c, [cs[c] EXCEPT !.len = @ + n])
Arrive(c, n) == Has(c) /\ Set(c, [cs[c] EXCEPT !.arr = @ + n])
(* one callback per message: the next one, whole *)
Deliver(c, m, n, ok) ==
  /\ Has(c) /\ LET r == cs[c] i == r.got + 1 IN
     /\ r.live /\ ok /\ i \in Whole(r) /\ n = r.fr[i].n /\ (n > 0 => m = r.fr[i].m)
     /\ Set(c, [r EXCEPT !.got = i])
AllGot(r) == \A i \in Whole(r) : i <= r.got
Hard(c) == Has(c) /\ Set(c, [cs[c] EXCEPT !.hard = TRUE])
Shut(c) == Has(c) /\ Set(c, [cs[c] EXCEPT !.shut = TRUE])
Down(c) == /\ Has(c) /\ cs[c].live /\ (cs[c].hard \/ AllGot(cs[c])) /\ Set(c, [cs[c] EXCEPT !.live = FALSE, !.hard = TRUE])
(* ---- sending *)
SendB(c, t, m, n) ==
  /\ Has(c) /\ LET r == cs[c] IN
     Set(c, [r EXCEPT !.out = Append(@, [m |-> m, n |-> n, t |-> t, done |-> FALSE, sure |-> FALSE])])
(* accepted for sure when nothing had ended the connection by then *)
SendE(c, m) ==
  /\ Has(c) /\ LET r == cs[c] IN
     Set(c, [r EXCEPT !.out = [j \in DOMAIN r.out |-> IF r.out[j].m = m THEN [r.out[j] EXCEPT !.sure = ~(r.shut \/ r.hard \/ Broken(r))] ELSE r.out[j]]])
(* one complete frame has reached the wire; an empty one does not tell whose it is *)
Wire(c, m, n, ok) ==
  /\ Has(c) /\ ok
  /\ \E j \in DOMAIN cs[c].out : LET o == cs[c].out IN
     /\ ~o[j].done /\ o[j].n = n /\ (n > 0 => o[j].m = m)
     /\ \A k \in 1..(j - 1) : o[k].t = o[j].t => (o[k].done \/ ~o[k].sure)
     /\ Set(c, [cs[c] EXCEPT !.out[j].done = TRUE])
(* the write side ends only when the user or an invalid length asks for it *)
Fin(c) == /\ Has(c) /\ (cs[c].shut \/ cs[c].hard \/ Broken(cs[c])) /\ Set(c, [cs[c] EXCEPT !.fin = TRUE])
(* full: the kernel took all it was given *)
Quiet(c, part, full) ==
  /\ Has(c) => LET r == cs[c] IN
       /\ (r.live /\ ~r.hard) => (AllGot(r) /\ (Broken(r) /\ full => r.fin))
       /\ (full /\ r.live /\ ~r.hard) => (part = 0 /\ \A j \in DOMAIN r.out : r.out[j].sure => r.out[j].done)
  /\ UNCHANGED cvars
=============================================================================
