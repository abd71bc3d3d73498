------------------------------- MODULE Pools -------------------------------
(* Contract of the memory pools (property P23): chunks are disjoint, keep     *)
(* their contents, and are accounted for. Standard containers may use them.   *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES
  live,  \* id -> [a, s, in]: address, first byte of its contents, in the pool
  fr,    \* free chunks
  bl,    \* blocks (kind 0) or capacity (kind 1)
  cpb,   \* chunks of a new block
  us,    \* memory in use
  cl, cm \* a list and a map whose nodes come from pools
pvars == <<live, fr, bl, cpb, us, cl, cm>>
PInit == live = <<>> /\ fr = 0 /\ bl = 0 /\ cpb = 1 /\ us = 0 /\ cl = <<>> /\ cm = <<>>
Max(a, b) == IF a < b THEN b ELSE a
Range(s) == {s[i] : i \in 1..Len(s)}
(* the bytes s, s + 1, ... *)
Runs(s, n) == IF n = 0 THEN <<>> ELSE <<<<s, n>>>>
(* what is observed agrees with the live chunks lv *)
Becomes(sz, lv, st) ==
  /\ live' = lv
  /\ {x.id : x \in Range(st)} = DOMAIN lv /\ Len(st) = Cardinality(DOMAIN lv)
  /\ \A x \in Range(st) : x.q = Runs(lv[x.id].s, sz)
  /\ UNCHANGED <<cl, cm>>
Counts(f, b, c, u) == fr' = f /\ bl' = b /\ cpb' = c /\ us' = u
Add(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Disjoint(sz, a) == \A x \in DOMAIN live : a + sz <= live[x].a \/ live[x].a + sz <= a
Align(sz) == IF sz % 8 = 0 THEN 8 ELSE IF sz % 4 = 0 THEN 4 ELSE IF sz % 2 = 0 THEN 2 ELSE 1
Enough(sz, lv, f, u) == u >= Max(sz, 8) * (Cardinality(DOMAIN lv) + f)
Init2(kind, n, f, b, c, u) ==
  IF kind = 1 THEN f = n /\ b = n ELSE f = 0 /\ b = 0 /\ u = 0 /\ (kind = 0 => c = n)
Malloc(kind, sz, id, a, s, st, f, b, c, u) ==
  /\ a >= 0 /\ (kind = 0 => a % Align(sz) = 0) /\ Disjoint(sz, a)
  /\ LET lv == Add(live, id, [a |-> a, s |-> s, in |-> kind # 1 \/ fr > 0]) IN
       /\ Becomes(sz, lv, st)
       /\ CASE kind = 0 -> /\ IF fr > 0 THEN f = fr - 1 /\ b = bl ELSE f = cpb - 1 /\ b = bl + 1
                           /\ c = cpb /\ Enough(sz, lv, f, u)
            [] kind = 1 -> f = Max(fr - 1, 0) /\ b = bl
            [] OTHER -> Enough(sz, lv, 0, u)
  /\ Counts(f, b, c, u)
Free(kind, sz, id, st, f, b, c, u) ==
  /\ id \in DOMAIN live
  /\ Becomes(sz, Del(live, id), st)
  /\ CASE kind = 0 -> f = fr + 1 /\ b = bl /\ c = cpb /\ u = us
       [] kind = 1 -> f = fr + (IF live[id].in THEN 1 ELSE 0) /\ b = bl
       [] OTHER -> u = us
  /\ Counts(f, b, c, u)
Write(sz, id, s, st, f, b, c, u) ==
  /\ id \in DOMAIN live /\ Becomes(sz, [live EXCEPT ![id].s = s], st)
  /\ f = fr /\ b = bl /\ c = cpb /\ u = us /\ Counts(f, b, c, u)
Same(sz, st, f, b, c, u) ==
  /\ Becomes(sz, live, st) /\ f = fr /\ b = bl /\ c = cpb /\ u = us /\ Counts(f, b, c, u)
(* only blocks without live chunks go, and all of them *)
Shrink(kind, sz, st, f, b, c, u) ==
  /\ Becomes(sz, live, st) /\ f <= fr /\ b <= bl /\ c = cpb /\ u <= us
  /\ kind = 0 => b <= Cardinality(DOMAIN live)
  /\ DOMAIN live = {} => f = 0 /\ b = 0 /\ u = 0
  /\ Enough(sz, live, f, u)
  /\ Counts(f, b, c, u)
Reserve(sz, n, st, f, b, c, u) ==
  /\ Becomes(sz, live, st)
  /\ IF n <= bl THEN f = fr /\ b = bl ELSE f = fr + (n - bl) /\ b = n
  /\ Counts(f, b, c, u)
SetPerBlock(sz, n, st, f, b, c, u) ==
  /\ Becomes(sz, live, st) /\ f = fr /\ b = bl /\ c = n /\ u = us /\ Counts(f, b, c, u)
(* containers: a list, and a map as a sorted sequence of <<key, value>> *)
Boxes(nl, nm, st, mp, lv, bad) ==
  /\ cl' = nl /\ cm' = nm /\ st = nl /\ mp = nm /\ lv = Len(nl) + Len(nm) /\ bad = 0
  /\ UNCHANGED <<live, fr, bl, cpb, us>>
InsAt(s, p, v) == SubSeq(s, 1, p) \o <<v>> \o SubSeq(s, p + 1, Len(s))
DelAt(s, p) == SubSeq(s, 1, p) \o SubSeq(s, p + 2, Len(s))
MapDel(s, k) == SelectSeq(s, LAMBDA x : x[1] # k)
MapPut(s, k, v) == LET t == MapDel(s, k) n == Cardinality({i \in 1..Len(t) : t[i][1] < k}) IN InsAt(t, n, <<k, v>>)
=============================================================================
