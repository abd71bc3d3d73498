------------------------------ MODULE Threads ------------------------------
(* Contract of the thread object (property P27): a function started in it     *)
(* runs once, on a thread of its own which knows its name; join waits for     *)
(* it; moving the object moves the thread, and an object that goes away       *)
(* without join leaves the thread running.                                    *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES
  obj,    \* object -> [st, k, nm]: "ready" (k = 0: no function yet), "run", "joined"; the name
  fn,     \* function -> [st, t, nm]: "put", "go" (started), "in", "out"
  gone,   \* functions whose state was destroyed
  names,  \* default names given
  cell,   \* <<thread, i>> -> [k, n]: thread-local objects
  act     \* <<operation, object>> under way, or <<>>
tvars == <<obj, fn, gone, names, cell, act>>
TInit == obj = <<>> /\ fn = <<>> /\ gone = {} /\ names = {} /\ cell = <<>> /\ act = <<>>
Add(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
None == [st |-> "put", t |-> 0, nm |-> ""]
(* df: the name was not given *)
New(a, k, df, nm, ask) ==
  /\ a \notin DOMAIN obj /\ act = <<>>
  /\ IF df = 1 THEN nm # "" /\ names' = names \cup {nm} ELSE nm = ask /\ UNCHANGED names
  /\ obj' = Add(obj, a, [st |-> "ready", k |-> k, nm |-> nm])
  /\ fn' = (IF k = 0 THEN fn ELSE Add(fn, k, None))
  /\ UNCHANGED <<gone, cell, act>>
(* a function to be started instead of the one there, if any *)
Put(a, k) == /\ a \in DOMAIN obj /\ obj[a].st = "ready" /\ act = <<>> /\ obj' = [obj EXCEPT ![a].k = k] /\ fn' = Add(fn, k, None)
             /\ UNCHANGED <<gone, names, cell, act>>
StartB(a) == /\ act = <<>> /\ obj[a].st = "ready" /\ obj[a].k # 0 /\ act' = <<"start", a>>
             /\ fn' = [fn EXCEPT ![obj[a].k] = [@ EXCEPT !.st = "go", !.nm = obj[a].nm]]
             /\ obj' = [obj EXCEPT ![a].st = "run"] /\ UNCHANGED <<gone, names, cell>>
StartE(a) == act = <<"start", a>> /\ act' = <<>> /\ UNCHANGED <<obj, fn, gone, names, cell>>
Ts == {fn[k].t : k \in DOMAIN fn}
RunB(k, t, nm, ok) ==
  /\ k \in DOMAIN fn /\ fn[k].st = "go" /\ k \notin gone /\ t \notin Ts /\ fn[k].nm \in {nm, "?"} /\ ok = 1
  /\ fn' = [fn EXCEPT ![k] = [@ EXCEPT !.st = "in", !.t = t, !.nm = nm]] /\ UNCHANGED <<obj, gone, names, cell, act>>
In(k, t, nm, ok) == k \in DOMAIN fn /\ fn[k].st = "in" /\ fn[k].t = t /\ nm = fn[k].nm /\ ok = 1 /\ k \notin gone /\ UNCHANGED tvars
RunE(k) == /\ k \in DOMAIN fn /\ fn[k].st = "in" /\ k \notin gone /\ fn' = [fn EXCEPT ![k].st = "out"] /\ UNCHANGED <<obj, gone, names, cell, act>>
(* what a function holds is given up once, after it ran or when it cannot run any more *)
FnD(k) == /\ k \in DOMAIN fn /\ k \notin gone /\ fn[k].st \in {"put", "out"} /\ gone' = gone \cup {k} /\ UNCHANGED <<obj, fn, names, cell, act>>
(* thread-local objects: one per thread, made on first use, destroyed when the thread ends *)
Cell(t, k, i, n) ==
  /\ k \in DOMAIN fn /\ fn[k].st = "in" /\ fn[k].t = t
  /\ n = (IF <<t, i>> \in DOMAIN cell THEN cell[<<t, i>>].n ELSE 0) + 1
  /\ cell' = Add(cell, <<t, i>>, [k |-> k, n |-> n]) /\ UNCHANGED <<obj, fn, gone, names, act>>
CellD(t, k, i, n) ==
  /\ <<t, i>> \in DOMAIN cell /\ cell[<<t, i>>] = [k |-> k, n |-> n] /\ fn[k].st = "out" /\ fn[k].t = t
  /\ cell' = Del(cell, <<t, i>>) /\ UNCHANGED <<obj, fn, gone, names, act>>
JoinB(a) == act = <<>> /\ obj[a].st = "run" /\ act' = <<"join", a>> /\ UNCHANGED <<obj, fn, gone, names, cell>>
JoinE(a) == /\ act = <<"join", a>> /\ act' = <<>> /\ fn[obj[a].k].st = "out"
            /\ \A x \in DOMAIN cell : cell[x].k # obj[a].k
            /\ obj' = [obj EXCEPT ![a].st = "joined"] /\ UNCHANGED <<fn, gone, names, cell>>
(* an object moved from may be used again; its name is not specified *)
Empty == [st |-> "ready", k |-> 0, nm |-> "?"]
Mov(a, b) == act = <<>> /\ b \notin DOMAIN obj /\ obj' = [Add(obj, b, obj[a]) EXCEPT ![a] = Empty] /\ UNCHANGED <<fn, gone, names, cell, act>>
MasB(a, b) == act = <<>> /\ b \in DOMAIN obj /\ act' = <<"mas", a>> /\ UNCHANGED <<obj, fn, gone, names, cell>>
MasE(a, b) == act = <<"mas", a>> /\ act' = <<>> /\ obj' = [obj EXCEPT ![b] = obj[a], ![a] = Empty] /\ UNCHANGED <<fn, gone, names, cell>>
DelB(a) == act = <<>> /\ a \in DOMAIN obj /\ act' = <<"del", a>> /\ UNCHANGED <<obj, fn, gone, names, cell>>
DelE(a) == act = <<"del", a>> /\ act' = <<>> /\ obj' = Del(obj, a) /\ UNCHANGED <<fn, gone, names, cell>>
(* nothing can run any more and the objects are gone: what was started has run, nothing is left behind *)
End(live, left) ==
  /\ live = 0 /\ left = 0 /\ act = <<>> /\ DOMAIN obj = {} /\ cell = <<>> /\ gone = DOMAIN fn
  /\ \A k \in DOMAIN fn : fn[k].st \in {"put", "out"}
  /\ UNCHANGED tvars
=============================================================================
