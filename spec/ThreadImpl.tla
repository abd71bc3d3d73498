----------------------------- MODULE ThreadImpl -----------------------------
(* The thread object as kanon implements it: the started thread works on data *)
(* of its own, the object keeps the thread's handle and two flags, and a      *)
(* handle is joined or detached once.  Threads (P27) observes.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Objs, Fns, Ops, Uses, Mutant
VARIABLES s, obj, fn, gone, names, cell, act, bad
C == INSTANCE Threads
mv == <<obj, fn, gone, names, cell, act>>
vars == <<s, mv, bad>>
Obs(A, name) == IF ENABLED A THEN A /\ UNCHANGED bad ELSE UNCHANGED mv /\ bad' = name
Silent == UNCHANGED <<mv, bad>>
(* o: object -> [f, go, jo, h, nm]; th: handle -> [at, from, d, cs]: where it is, the object  *)
(* it was started from, its data [f, nm], how often it used its thread-local object;          *)
(* hs: handle -> "open" (neither joined nor detached); op: what the owner is doing;            *)
(* drop: functions whose state has to be given up                                              *)
Init == s = [o |-> <<>>, th |-> <<>>, hs |-> <<>>, op |-> <<>>, left |-> Ops, nk |-> 1, nn |-> 1, drop |-> {}, fin |-> FALSE] /\ C!TInit /\ bad = ""
Put(f, x, v) == C!Add(f, x, v)
Blank == [f |-> 0, go |-> FALSE, jo |-> FALSE, h |-> 0, nm |-> ""]
Ready == s.left > 0 /\ s.op = <<>> /\ s.drop = {}
Less(x) == [x EXCEPT !.left = @ - 1]
New == /\ Ready /\ s.nk <= Fns /\ \E a \in Objs \ DOMAIN s.o :
         LET nm == "t" \o ToString(s.nn) x == Less([s EXCEPT !.o = Put(@, a, [Blank EXCEPT !.f = s.nk, !.nm = nm]), !.nk = @ + 1, !.nn = @ + 1])
         IN s' = x /\ Obs(C!New(a, s.nk, 1, nm, ""), "New")
(* a function instead of the one there *)
Fill == /\ Ready /\ s.nk <= Fns /\ \E a \in DOMAIN s.o : ~s.o[a].go /\ s.o[a].f = 0 /\
            s' = Less([s EXCEPT !.o = [@ EXCEPT ![a].f = s.nk], !.nk = @ + 1]) /\ Obs(C!Put(a, s.nk), "Put")
Hd == Cardinality(DOMAIN s.th) + 1
StartB == /\ Ready /\ \E a \in DOMAIN s.o : ~s.o[a].go /\ s.o[a].f # 0 /\
              s' = Less([s EXCEPT !.op = <<"start", a>>]) /\ Obs(C!StartB(a), "StartB")
Create == s.op # <<>> /\ s.op[1] = "start" /\ LET a == s.op[2] y == s.o[a] IN
   /\ s' = [s EXCEPT !.op = <<"started", a>>, !.hs = Put(@, Hd, "open"),
                     !.o = [@ EXCEPT ![a] = [y EXCEPT !.go = TRUE, !.h = Hd, !.f = IF Mutant = "usethis" THEN @ ELSE 0]],
                     !.th = Put(@, Hd, [at |-> "start", from |-> a, d |-> [f |-> y.f, nm |-> y.nm], cs |-> 0])]
   /\ Silent
StartE == s.op # <<>> /\ s.op[1] = "started" /\ s' = [s EXCEPT !.op = <<>>] /\ Obs(C!StartE(s.op[2]), "StartE")
(* the running thread *)
Tid(h) == 100 + h
Data(h) == IF Mutant # "usethis" THEN s.th[h].d
           ELSE LET a == s.th[h].from IN IF a \in DOMAIN s.o THEN [f |-> s.o[a].f, nm |-> s.o[a].nm] ELSE [f |-> 0, nm |-> "-"]
Go(h, at) == [s EXCEPT !.th = [@ EXCEPT ![h].at = at]]
RunB(h) == s.th[h].at = "start" /\ LET d == Data(h) nm == IF Mutant = "noname" THEN "" ELSE d.nm IN
             s' = [Go(h, "in") EXCEPT !.th = [@ EXCEPT ![h].d = [d EXCEPT !.nm = nm]]] /\ Obs(C!RunB(d.f, Tid(h), nm, 1), "RunB")
Look(h) == s.th[h].at = "in" /\ s.th[h].cs < Uses /\ LET d == Data(h) IN s' = [s EXCEPT !.th = [@ EXCEPT ![h].cs = @ + 1]] /\
             IF s.th[h].cs % 2 = 0 THEN Obs(C!Cell(Tid(h), d.f, 0, s.th[h].cs \div 2 + 1), "Cell") /\ TRUE
             ELSE Obs(C!In(d.f, Tid(h), d.nm, 1), "In")
RunE(h) == s.th[h].at = "in" /\ s' = Go(h, IF Mutant = "twice" THEN "start" ELSE "ran") /\ Obs(C!RunE(Data(h).f), "RunE")
FreeData(h) == /\ s.th[h].at = "ran" /\ s' = Go(h, "freed")
                /\ IF Mutant \in {"usethis", "leakdata"} THEN Silent ELSE Obs(C!FnD(s.th[h].d.f), "FnD")
Cells(h) == /\ s.th[h].at = "freed" /\ s' = Go(h, "end")
             /\ IF s.th[h].cs = 0 \/ Mutant = "keepcell" THEN Silent ELSE Obs(C!CellD(Tid(h), s.th[h].d.f, 0, (s.th[h].cs + 1) \div 2), "CellD")
(* join and detach: of a handle that is open *)
(* the owner joins a running thread; the object refuses when it takes itself for joined *)
JoinB == /\ Ready /\ \E a \in DOMAIN s.o : obj[a].st = "run" /\ s.o[a].go /\
             IF s.o[a].jo THEN s' = s /\ bad' = "assert" /\ UNCHANGED mv
             ELSE s' = Less([s EXCEPT !.op = <<"join", a>>, !.o = [@ EXCEPT ![a].jo = Mutant # "unmarked"]]) /\ Obs(C!JoinB(a), "JoinB")
JoinE == s.op # <<>> /\ s.op[1] = "join" /\ LET a == s.op[2] h == s.o[a].h IN
          /\ s.th[h].at = "end" \/ (Mutant = "nowait" /\ s.th[h].at # "start")
          /\ IF s.hs[h] = "open" THEN s' = [s EXCEPT !.op = <<>>, !.hs = [@ EXCEPT ![h] = "shut"]] /\ Obs(C!JoinE(a), "JoinE")
             ELSE s' = s /\ bad' = "join" /\ UNCHANGED mv
(* what the destructor does with the handle of y *)
Shut(hs, y) == IF y.go /\ ~y.jo /\ Mutant # "nodetach" THEN [hs EXCEPT ![y.h] = "shut"] ELSE hs
Wrong(y) == y.go /\ ~y.jo /\ Mutant # "nodetach" /\ (y.h = 0 \/ (y.h # 0 /\ s.hs[y.h] # "open"))
Loses(y) == IF y.f # 0 /\ (Mutant # "usethis" \/ ~y.go) THEN {y.f} ELSE {}
From(y) == IF Mutant = "keepstarted" THEN [Blank EXCEPT !.go = y.go, !.jo = y.jo] ELSE IF Mutant = "keepjoined" THEN [Blank EXCEPT !.jo = y.jo] ELSE Blank
Mov == /\ Ready /\ \E a \in DOMAIN s.o, b \in Objs \ DOMAIN s.o :
        s' = Less([s EXCEPT !.o = [Put(@, b, s.o[a]) EXCEPT ![a] = From(s.o[a])]]) /\ Obs(C!Mov(a, b), "Mov")
MasB == /\ Ready /\ \E a \in DOMAIN s.o : \E b \in DOMAIN s.o \ {a} : s' = Less([s EXCEPT !.op = <<"mas", a, b>>]) /\ Obs(C!MasB(a, b), "MasB")
MasDo == s.op # <<>> /\ s.op[1] = "mas" /\ s.drop = {} /\ LET a == s.op[2] b == s.op[3] y == s.o[b] IN
   IF Wrong(y) /\ Mutant # "overwrite" THEN s' = s /\ bad' = "detach" /\ UNCHANGED mv
   ELSE /\ s' = [s EXCEPT !.op = <<"mased", a, b>>, !.hs = IF Mutant = "overwrite" THEN @ ELSE Shut(@, y), !.drop = Loses(y),
                          !.o = [@ EXCEPT ![b] = s.o[a], ![a] = From(s.o[a])]] /\ Silent
MasE == s.op # <<>> /\ s.op[1] = "mased" /\ s.drop = {} /\ s' = [s EXCEPT !.op = <<>>] /\ Obs(C!MasE(s.op[2], s.op[3]), "MasE")
Drop == \E k \in s.drop : s' = [s EXCEPT !.drop = @ \ {k}] /\ Obs(C!FnD(k), "FnD")
DelB(any) == /\ s.op = <<>> /\ s.drop = {} /\ (any \/ s.left > 0) /\ \E a \in DOMAIN s.o : s' = [s EXCEPT !.op = <<"del", a>>, !.left = IF any THEN @ ELSE @ - 1] /\ Obs(C!DelB(a), "DelB")
DelDo == s.op # <<>> /\ s.op[1] = "del" /\ LET a == s.op[2] y == s.o[a] IN
   IF Wrong(y) THEN s' = s /\ bad' = "detach" /\ UNCHANGED mv
   ELSE s' = [s EXCEPT !.op = <<"deled", a>>, !.hs = Shut(@, y), !.drop = Loses(y), !.o = C!Del(@, a)] /\ Silent
DelE == s.op # <<>> /\ s.op[1] = "deled" /\ s.drop = {} /\ s' = [s EXCEPT !.op = <<>>] /\ Obs(C!DelE(s.op[2]), "DelE")
Stop == Ready /\ s' = [s EXCEPT !.left = 0] /\ Silent
Idle == \A h \in DOMAIN s.th : s.th[h].at = "end"
(* at the end, once the threads are done, the objects go *)
Finish == s.left = 0 /\ Idle /\ DelB(TRUE)
End == /\ s.left = 0 /\ Idle /\ s.op = <<>> /\ s.drop = {} /\ DOMAIN s.o = {} /\ ~s.fin
       /\ s' = [s EXCEPT !.fin = TRUE] /\ Obs(C!End(0, Cardinality({h \in DOMAIN s.hs : s.hs[h] = "open"})), "End")
Next == bad = "" /\ (New \/ Fill \/ StartB \/ Create \/ StartE \/ JoinB \/ JoinE \/ Mov \/ MasB \/ MasDo \/ MasE \/ Drop \/ DelB(FALSE) \/ DelDo \/ DelE \/ Finish \/ Stop \/ End
                     \/ \E h \in DOMAIN s.th : RunB(h) \/ Look(h) \/ RunE(h) \/ FreeData(h) \/ Cells(h))
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
(* a started thread's handle is with one object, or closed *)
Owned == \A h \in DOMAIN s.hs : s.hs[h] = "open" => Cardinality({a \in DOMAIN s.o : s.o[a].h = h}) = 1
(* nothing gets stuck *)
NoStuck == s.fin \/ bad # "" \/ ENABLED Next
=============================================================================
