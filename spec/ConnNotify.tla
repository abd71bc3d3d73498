---------------------------- MODULE ConnNotify ----------------------------
(* Contract of the write-complete and high-water-mark callbacks (P05).      *)
(* A message is "accepted" when the loop takes it over: it is written at    *)
(* once if nothing is pending, the rest is pending.                         *)
EXTENDS Integers, Sequences
VARIABLES
  calls,   \* sequence of [t, n, ret, acc]
  pend,    \* accepted bytes the kernel has not taken
  credit,  \* times everything accepted was handed over, minus write-complete callbacks
  due,     \* high-water notifications owed (arguments)
  mark,    \* high-water mark, 0: no callback registered
  wc,      \* a write-complete callback is registered
  soft     \* refusals are possible (shutdown requested, closing or closed)
nvars == <<calls, pend, credit, due, mark, wc, soft>>
NInit(mk, w) == calls = <<>> /\ pend = 0 /\ credit = 0 /\ due = <<>> /\ mark = mk /\ wc = w /\ soft = FALSE
M == 1..Len(calls)
SendCall(t, m, n) == /\ m = Len(calls) + 1
                     /\ calls' = Append(calls, [t |-> t, n |-> n, ret |-> FALSE, acc |-> FALSE])
                     /\ UNCHANGED <<pend, credit, due, mark, wc, soft>>
SendRet(t, m) == /\ m \in M /\ calls[m].t = t
                 /\ t = 0 => calls[m].acc \/ soft
                 /\ calls' = [calls EXCEPT ![m].ret = TRUE]
                 /\ UNCHANGED <<pend, credit, due, mark, wc, soft>>
Soft == soft' = TRUE /\ UNCHANGED <<calls, pend, credit, due, mark, wc>>

Acceptable(m) == /\ m \in M /\ ~calls[m].acc
                 /\ calls[m].t = 0 => ~calls[m].ret
                 /\ \A j \in M : j < m /\ calls[j].t = calls[m].t => calls[j].acc \/ soft
Owe(before, after) == IF mark > 0 /\ before < mark /\ after >= mark THEN Append(due, after) ELSE due
Credit(p) == IF wc /\ p = 0 THEN credit + 1 ELSE credit

(* accepted behind pending bytes: no system call *)
AcceptBehind(m) ==
  /\ pend > 0 /\ Acceptable(m)
  /\ calls' = [calls EXCEPT ![m].acc = TRUE]
  /\ pend' = pend + calls[m].n
  /\ due' = Owe(pend, pend')
  /\ UNCHANGED <<credit, mark, wc, soft>>
(* accepted with nothing pending: k of its bytes are taken at once *)
AcceptDirect(m, k) ==
  /\ pend = 0 /\ Acceptable(m) /\ k <= calls[m].n
  /\ calls' = [calls EXCEPT ![m].acc = TRUE]
  /\ pend' = calls[m].n - k
  /\ due' = Owe(0, pend')
  /\ credit' = Credit(pend')
  /\ UNCHANGED <<mark, wc, soft>>
(* an empty message may be handed over without a system call; whether that counts as
   "handed everything over" when nothing is pending is left open *)
AcceptEmpty(m) ==
  /\ pend = 0 /\ Acceptable(m) /\ calls[m].n = 0
  /\ calls' = [calls EXCEPT ![m].acc = TRUE]
  /\ credit' \in {credit, Credit(0)}
  /\ UNCHANGED <<pend, due, mark, wc, soft>>
Drain(k) == /\ pend > 0 /\ k <= pend
            /\ pend' = pend - k /\ credit' = Credit(pend')
            /\ UNCHANGED <<calls, due, mark, wc, soft>>
WriteComplete(onloop) == /\ onloop /\ credit > 0 /\ credit' = credit - 1
                         /\ UNCHANGED <<calls, pend, due, mark, wc, soft>>
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
HighWater(n, onloop) == /\ onloop
                        /\ \E i \in 1..Len(due) : due[i] = n /\ due' = RemoveAt(due, i)
                        /\ UNCHANGED <<calls, pend, credit, mark, wc, soft>>
Quiet == /\ ~soft => credit = 0 /\ due = <<>> /\ pend = 0
         /\ UNCHANGED nvars
DueReachMark == \A i \in 1..Len(due) : due[i] >= mark
CreditOK == credit >= 0
=============================================================================
