------------------------------- MODULE Logger -------------------------------
(* Contract of log statements (property P19).  Levels: 0 trace .. 3 warn,   *)
(* 4 error, 5 sys-error, 6 fatal, 7 sys-fatal, 9 off.                       *)
EXTENDS Integers, FiniteSets
VARIABLES
  lev, all, lib,  \* threshold and switches
  act,            \* thread -> statement in progress [lev, on, evald, out, flushed]
  st
gvars == <<lev, all, lib, act, st>>
GInit == lev = 2 /\ all = TRUE /\ lib = TRUE /\ act = <<>> /\ st = "on"
But(f, k) == [u \in DOMAIN f \ {k} |-> f[u]]
With(f, k, x) == [u \in DOMAIN f \cup {k} |-> IF u = k THEN x ELSE f[u]]
Idle == act = <<>>
SetLev(n) == Idle /\ lev' = n /\ UNCHANGED <<all, lib, act, st>>
SetAll(b) == Idle /\ all' = b /\ UNCHANGED <<lev, lib, act, st>>
SetLib(b) == Idle /\ lib' = b /\ UNCHANGED <<lev, all, act, st>>
Fatal(n) == n \in {6, 7}
Enabled(n, l) == Fatal(n) \/ (all /\ n >= lev /\ (l => lib))
Begin(t, n, l) ==
  /\ st = "on" /\ t \notin DOMAIN act
  /\ act' = With(act, t, [lev |-> n, on |-> Enabled(n, l), evald |-> FALSE, out |-> FALSE, flushed |-> FALSE])
  /\ UNCHANGED <<lev, all, lib, st>>
(* the arguments are evaluated once, and only when the record is wanted *)
Eval(t) == /\ t \in DOMAIN act /\ act[t].on /\ ~act[t].evald
           /\ act' = [act EXCEPT ![t].evald = TRUE] /\ UNCHANGED <<lev, all, lib, st>>
(* one output call with one complete line                                   *)
Out(t, r) ==
  /\ t \in DOMAIN act /\ act[t].on /\ act[t].evald /\ ~act[t].out
  /\ r.lev = act[t].lev          \* the level it names
  /\ r.nl = 1 /\ r.end = 1       \* one newline, at the end
  /\ r.time = 1 /\ r.thr = 1     \* time between begin and now; thread id and name
  /\ r.loc = 1                   \* " - file:line"
  /\ r.err = 1 /\ r.fn = 1       \* errno and its message for sys; function for trace and debug
  /\ r.msg \in (IF r.long = 1 THEN {1, 2} ELSE {1})   \* the message; 2: cut, only when too long
  /\ r.size <= 4096
  /\ act' = [act EXCEPT ![t].out = TRUE] /\ UNCHANGED <<lev, all, lib, st>>
Flush(t) == /\ t \in DOMAIN act /\ Fatal(act[t].lev) /\ act[t].out /\ ~act[t].flushed
            /\ act' = [act EXCEPT ![t].flushed = TRUE] /\ UNCHANGED <<lev, all, lib, st>>
End(t) == /\ t \in DOMAIN act /\ ~Fatal(act[t].lev) /\ (act[t].on => act[t].out)
          /\ act' = But(act, t) /\ UNCHANGED <<lev, all, lib, st>>
(* only a fatal record that is out and flushed ends the process *)
Abort == /\ st = "on" /\ \E t \in DOMAIN act : act[t].flushed
         /\ st' = "dead" /\ UNCHANGED <<lev, all, lib, act>>
=============================================================================
