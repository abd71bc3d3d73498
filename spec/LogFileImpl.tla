---------------------------- MODULE LogFileImpl ----------------------------
(* The rolling log file as kanon implements it: appends go to the current    *)
(* file's buffer under a lock; a size or a period exceeded begins a new file, *)
(* the flush interval passed empties the buffer; the names of old files are   *)
(* handed to a thread that removes them.  LogFile (P18) observes.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS T, Ops, Sizes, RollSize, Period_, FlushIv, Num, MaxNow, Mutant
VARIABLES s, cfg, fs, recs, rolled, may, gone, st, bad
C == INSTANCE LogFile
mv == <<cfg, fs, recs, rolled, may, gone, st>>
vars == <<s, mv, bad>>
Obs(A, name) == IF ENABLED A THEN A /\ UNCHANGED bad ELSE UNCHANGED mv /\ bad' = name
Silent == UNCHANGED <<mv, bad>>
Bg == Num < 99   \* there is a remover
Init == /\ s = [pc |-> [t \in T |-> "idle"], m |-> [t \in T |-> 0], left |-> [t \in T |-> Ops], now |-> 0, own |-> 0,
                cur |-> 1, buf |-> <<>>, written |-> 0, old |-> 0, period |-> 0, lastroll |-> 0, lastflush |-> 0,
                lf |-> <<1>>, dup |-> <<>>, quit |-> FALSE, rm |-> IF Bg THEN "top" ELSE "end", files |-> <<>>, woken |-> FALSE, main |-> "up"]
        /\ bad = "" /\ cfg = [roll |-> RollSize, iv |-> Period_, fl |-> FlushIv, num |-> IF Bg THEN Num ELSE -1, one |-> Cardinality(T) = 1]
        /\ fs = <<[sec |-> 0, bytes |-> 0, open |-> TRUE]>> /\ recs = <<>> /\ rolled = FALSE /\ may = {} /\ gone = {} /\ st = "on"
Go(t, p) == [s EXCEPT !.pc[t] = p]
Call(t, n) == /\ s.pc[t] = "idle" /\ s.left[t] > 0 /\ s.main = "up"
              /\ s' = [Go(t, "lock") EXCEPT !.left[t] = @ - 1, !.m[t] = Len(recs) + 1]
              /\ Obs(C!AppB(Len(recs) + 1, n, s.now), "AppB")
Lock(t) == s.pc[t] = "lock" /\ s.own = 0 /\ s' = [Go(t, "put") EXCEPT !.own = t] /\ Silent
Put(t) == /\ s.pc[t] = "put" /\ Silent
          /\ LET w == s.written + recs[s.m[t]].n
                 big == IF Mutant = "rollat" THEN w >= RollSize ELSE w > RollSize IN
             s' = [s EXCEPT !.buf = Append(@, s.m[t]), !.written = w,
                     !.lastflush = IF ~big /\ s.now \div Period_ <= s.period /\ s.now - s.lastflush > FlushIv THEN s.now ELSE @,
                     !.pc[t] = IF big \/ s.now \div Period_ > s.period THEN "roll"
                               ELSE IF s.now - s.lastflush > (IF Mutant = "lateflush" THEN FlushIv + 1 ELSE FlushIv) THEN "flush" ELSE "trim"]
Roll(t) == /\ s.pc[t] = "roll"
           /\ IF s.now > s.lastroll
              THEN /\ s' = [Go(t, "close") EXCEPT !.lastroll = s.now, !.lastflush = s.now, !.old = s.cur, !.cur = Len(fs) + 1, !.written = 0,
                              !.period = IF Mutant = "keepperiod" THEN @ ELSE s.now \div Period_, !.lf = Append(@, Len(fs) + 1),
                              !.buf = IF Mutant = "rolldrops" THEN <<>> ELSE @]
                   /\ Obs(C!OpenF(Len(fs) + 1, s.now, TRUE, s.now), "OpenF")
              ELSE s' = Go(t, "trim") /\ Silent
Close(t) == /\ s.pc[t] = "close"
            /\ IF s.buf = <<>> THEN s' = Go(t, "trim") /\ Obs(C!CloseF(s.old, 0), "CloseF")
               ELSE s' = [s EXCEPT !.buf = Tail(@)] /\ Obs(C!Write(IF Mutant = "tonew" THEN s.cur ELSE s.old, Head(s.buf), TRUE), "Write on close")
Flush(t) == /\ s.pc[t] = "flush"
            /\ IF s.buf = <<>> THEN s' = Go(t, "trim") /\ Silent
               ELSE s' = [s EXCEPT !.buf = Tail(@)] /\ Obs(C!Write(s.cur, Head(s.buf), TRUE), "Write")
Front(q) == SubSeq(q, 1, Len(q) - 1)
Trim(t) == /\ s.pc[t] = "trim" /\ Silent
           /\ s' = IF Bg /\ Len(s.lf) >= Num
                   THEN [Go(t, "ret") EXCEPT !.dup = IF Mutant = "overwrite" THEN Front(s.lf) ELSE IF Mutant = "current" THEN @ \o s.lf ELSE @ \o Front(s.lf),
                                             !.lf = <<s.lf[Len(s.lf)]>>, !.own = 0, !.woken = Mutant # "unnotified"]
                   ELSE [Go(t, "ret") EXCEPT !.own = 0]
Ret(t) == s.pc[t] = "ret" /\ s' = Go(t, "idle") /\ Obs(C!AppE(s.m[t], s.now), "AppE")
(* the remover *)
RmTop == /\ s.rm = "top" /\ Silent
         /\ s' = IF Mutant = "quitfirst" /\ s.quit THEN [s EXCEPT !.rm = "end"]
                 ELSE IF s.dup = <<>> /\ ~s.quit THEN [s EXCEPT !.rm = "wait", !.woken = FALSE]
                 ELSE [s EXCEPT !.rm = IF s.quit THEN "last" ELSE "rm", !.files = s.dup, !.dup = <<>>]
RmWake == s.rm = "wait" /\ s.woken /\ s' = [s EXCEPT !.rm = "top"] /\ Silent
Rm == /\ s.rm \in {"rm", "last"}
      /\ IF s.files = <<>> THEN s' = [s EXCEPT !.rm = IF @ = "last" THEN "end" ELSE "top"] /\ Silent
         ELSE s' = [s EXCEPT !.files = Tail(@)] /\ Obs(C!Remove(Head(s.files), TRUE), "Remove")
(* destruction: once nobody uses it *)
DelB == s.main = "up" /\ (\A t \in T : s.pc[t] = "idle") /\ s' = [s EXCEPT !.main = "quit"] /\ Obs(C!DelB, "DelB")
DelQuit == s.main = "quit" /\ s' = [s EXCEPT !.quit = TRUE, !.woken = TRUE, !.main = "join"] /\ Silent
Join == s.main = "join" /\ s.rm = "end" /\ s' = [s EXCEPT !.main = "close"] /\ Silent
DelClose == /\ s.main = "close"
            /\ IF s.buf # <<>> THEN s' = [s EXCEPT !.buf = Tail(@)] /\ Obs(C!Write(s.cur, Head(s.buf), TRUE), "Write at the end")
               ELSE s' = [s EXCEPT !.main = "closed"] /\ Obs(C!CloseF(s.cur, 0), "last CloseF")
DelE == s.main = "closed" /\ s' = [s EXCEPT !.main = "gone"] /\ Obs(C!DelE, "DelE")
Tick == s.now < MaxNow /\ s.main = "up" /\ s' = [s EXCEPT !.now = @ + 1] /\ Silent
Resting == (\A t \in T : s.pc[t] = "idle") /\ (s.rm = "end" \/ (s.rm = "wait" /\ ~s.woken)) /\ s.main \in {"up", "gone"}
Quiet == Resting /\ Obs(C!Quiet, "Quiet") /\ UNCHANGED s
Next == \/ RmTop \/ RmWake \/ Rm \/ DelB \/ DelQuit \/ Join \/ DelClose \/ DelE \/ Tick \/ Quiet
        \/ \E t \in T : Lock(t) \/ Put(t) \/ Roll(t) \/ Close(t) \/ Flush(t) \/ Trim(t) \/ Ret(t) \/ \E n \in Sizes : Call(t, n)
Spec == Init /\ [][Next]_vars /\ WF_vars(RmTop \/ RmWake \/ Rm) /\ WF_vars(DelQuit \/ Join \/ DelClose \/ DelE)
Conforms == bad = ""
Ends == (s.main = "quit") ~> (s.main = "gone")
=============================================================================
