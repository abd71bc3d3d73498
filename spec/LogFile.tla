------------------------------- MODULE LogFile -------------------------------
(* Contract of the rolling log file (property P18).  Times are seconds.      *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES
  cfg,     \* [roll, iv, fl, num, one]: sizes and periods; one: a single appender
  fs,      \* files in the order they were begun: [sec, bytes, open]
  recs,    \* records: [n, b, e, ended, pred, on, lo, hi]: lo..hi the files it may be in
  rolled,  \* has a file been begun since the current append began?
  may,     \* files that may be removed
  gone,    \* removed files
  st
fvars == <<cfg, fs, recs, rolled, may, gone, st>>
FInit == /\ cfg = [roll |-> 0, iv |-> 1, fl |-> 0, num |-> -1, one |-> TRUE] /\ fs = <<>> /\ recs = <<>>
         /\ rolled = FALSE /\ may = {} /\ gone = {} /\ st = "no"
D == DOMAIN recs
F == DOMAIN fs
Max(a, b) == IF a > b THEN a ELSE b
New(c) == /\ st = "no" /\ cfg' = c /\ st' = "new" /\ UNCHANGED <<fs, recs, rolled, may, gone>>
Made == /\ st = "new" /\ Len(fs) = 1 /\ st' = "on" /\ UNCHANGED <<cfg, fs, recs, rolled, may, gone>>
Pending == {m \in D : ~recs[m].ended}
Cur == fs[Len(fs)]
Period(s) == s \div cfg.iv
RECURSIVE Size(_)
Size(S) == IF S = {} THEN 0 ELSE LET m == CHOOSE x \in S : TRUE IN recs[m].n + Size(S \ {m})
(* a file is begun by the constructor, or by an append that finds the current *)
(* one beyond its size or its period - but not twice within a second          *)
Due(s) == s > Cur.sec /\ (Cur.bytes > cfg.roll \/ Period(s) > Period(Cur.sec))
OpenF(f, sec, ok, now) ==
  /\ f = Len(fs) + 1 /\ ok /\ sec <= now
  /\ \/ st = "new" /\ fs = <<>>
     \/ st = "on" /\ Pending # {} /\ sec > Cur.sec
        /\ (cfg.one => (~rolled /\ Due(sec)))
        /\ \E m \in Pending : recs[m].b <= sec
  /\ fs' = Append(fs, [sec |-> sec, bytes |-> 0, open |-> TRUE])
  /\ rolled' = TRUE
  /\ recs' = [m \in D |-> IF recs[m].ended THEN recs[m] ELSE [recs[m] EXCEPT !.hi = f]]
  /\ LET live == (F \cup {f}) \ gone IN
     may' = (IF cfg.num >= 0 /\ Cardinality(live) >= cfg.num THEN may \cup F ELSE may)
  /\ UNCHANGED <<cfg, gone, st>>
AppB(m, n, now) ==
  /\ st = "on" /\ m = Len(recs) + 1
  /\ recs' = Append(recs, [n |-> n, b |-> now, e |-> 0, ended |-> FALSE, on |-> FALSE, lo |-> Len(fs), hi |-> Len(fs),
                           pred |-> {j \in D : recs[j].ended}])
  /\ rolled' = FALSE
  /\ fs' = (IF cfg.one THEN [fs EXCEPT ![Len(fs)].bytes = @ + n] ELSE fs)
  /\ UNCHANGED <<cfg, may, gone, st>>
AppE(m, now) ==
  /\ m \in D /\ ~recs[m].ended
  /\ (cfg.one /\ ~rolled) => ~Due(recs[m].b)
  /\ recs' = [recs EXCEPT ![m].ended = TRUE, ![m].e = now]
  (* what is older than the flush interval is on disk *)
  /\ \A j \in D : (recs[j].ended /\ recs[j].e < recs[m].b - cfg.fl) => recs[j].on
  /\ UNCHANGED <<cfg, fs, rolled, may, gone, st>>
(* exactly once, whole, after what was appended earlier, in its file *)
Write(f, m, ok) ==
  /\ ok /\ m \in D /\ f \in F /\ ~recs[m].on
  /\ IF cfg.one THEN f = recs[m].lo ELSE recs[m].lo <= f /\ f <= recs[m].hi
  /\ \A j \in recs[m].pred : recs[j].on
  /\ recs' = [recs EXCEPT ![m].on = TRUE]
  /\ UNCHANGED <<cfg, fs, rolled, may, gone, st>>
(* a file is closed with whole records only *)
CloseF(f, part) == /\ f \in F /\ fs[f].open /\ part = 0 /\ fs' = [fs EXCEPT ![f].open = FALSE]
                   /\ UNCHANGED <<cfg, recs, rolled, may, gone, st>>
FlushB == UNCHANGED fvars
FlushE(k) == /\ \A m \in D : (m <= k /\ recs[m].ended) => recs[m].on
             /\ UNCHANGED fvars
(* only files of this log, never the current one, and only at the limit *)
Remove(f, ok) == /\ ok /\ f \in may /\ f \in F /\ f # Len(fs) /\ f \notin gone /\ gone' = gone \cup {f}
                 /\ UNCHANGED <<cfg, fs, recs, rolled, may, st>>
Few == cfg.num >= 0 => Cardinality(F \ gone) < Max(cfg.num, 2)
Quiet == (st = "on" => Few) /\ UNCHANGED fvars
DelB == st = "on" /\ Pending = {} /\ st' = "del" /\ UNCHANGED <<cfg, fs, recs, rolled, may, gone>>
DelE == /\ st = "del" /\ st' = "gone" /\ Few
        /\ \A m \in D : recs[m].on
        /\ \A f \in F : ~fs[f].open
        /\ UNCHANGED <<cfg, fs, recs, rolled, may, gone>>
=============================================================================
