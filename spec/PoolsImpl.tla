------------------------------ MODULE PoolsImpl ------------------------------
(* The fixed chunk pool as kanon implements it: a chain of blocks got from    *)
(* malloc, whose chunks carry a status and, in the place where the user's     *)
(* bytes go, the link of the free list.  Pools (P23) observes.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Sz, PerBlock, Ops, Ids, Fails, Mutant
VARIABLES s, live, fr, bl, cpb, us, cl, cm, bad
C == INSTANCE Pools
mv == <<live, fr, bl, cpb, us, cl, cm>>
vars == <<s, mv, bad>>
Obs(A, name) == IF ENABLED A THEN A /\ UNCHANGED bad ELSE UNCHANGED mv /\ bad' = name
(* ch: blocks, newest first; head: first free chunk (0: none); at: status of  *)
(* each chunk; w: what lies in its bytes: a link or data; of: id -> chunk     *)
Init == s = [ch |-> <<>>, head |-> 0, at |-> <<>>, w |-> <<>>, of |-> <<>>, cp |-> 0, bc |-> 0, left |-> Ops, up |-> FALSE] /\ C!PInit /\ bad = ""
Al == IF Sz < 8 THEN 8 ELSE Sz
Step == IF Mutant = "overlap" THEN 8 ELSE 8 + Al
Base(b) == b * 1000
Chunk(b, i) == Base(b.b) + 24 + i * Step
ChunksOf(b) == {Chunk(b, i) : i \in 0..(b.n - 1)}
Space(b) == 24 + b.n * (8 + Al)
Link(a) == [k |-> "l", v |-> a]
Data(d) == [k |-> "d", v |-> d]
(* the free list; <<-1>> at its end if a link is not one *)
RECURSIVE Walk(_, _, _)
Walk(w, a, n) ==
  IF a = 0 THEN <<>>
  ELSE IF a \notin DOMAIN w \/ n = 0 THEN <<-1>>
  ELSE IF w[a].k # "l" THEN <<a, -1>> ELSE <<a>> \o Walk(w, w[a].v, n - 1)
Free(x) == Walk(x.w, x.head, 20)
RECURSIVE Sum(_)
Sum(c) == IF c = <<>> THEN 0 ELSE Space(c[1]) + Sum(Tail(c))
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o SeqOf(S \ {x})
St(x) == LET d == SeqOf(DOMAIN x.of) IN
  [i \in 1..Len(d) |-> [id |-> d[i], q |-> LET a == x.of[d[i]] IN IF a \in DOMAIN x.w /\ x.w[a].k = "d" THEN C!Runs(x.w[a].v, Sz) ELSE <<<<-1, Sz>>>>]]
FreeNum(x) == Cardinality({a \in UNION {ChunksOf(x.ch[i]) : i \in 1..Len(x.ch)} : x.at[a] = "free"})
Go(x, A(_, _, _, _, _), name) == s' = [x EXCEPT !.left = @ - 1] /\ Obs(A(St(x), FreeNum(x), x.bc, x.cp, Sum(x.ch)), name)
New == ~s.up /\ \E n \in PerBlock : LET x == [s EXCEPT !.up = TRUE, !.cp = n] IN
  Go(x, LAMBDA st, f, b, c, u : C!Becomes(Sz, live, st) /\ C!Init2(0, n, f, b, c, u) /\ C!Counts(f, b, c, u), "New")
(* malloc hands out the lowest place not taken *)
Slot(x) == CHOOSE k \in 1..20 : (\A i \in 1..Len(x.ch) : x.ch[i].b # k) /\ \A j \in 1..(k - 1) : \E i \in 1..Len(x.ch) : x.ch[i].b = j
Alloc(x) ==
  LET b == [b |-> Slot(x), n |-> x.cp]
      c == ChunksOf(b)
      nxt(a) == IF a = Chunk(b, b.n - 1) THEN IF Mutant = "openend" THEN a + Step ELSE 0 ELSE a + Step
  IN [x EXCEPT !.ch = <<b>> \o @, !.head = Chunk(b, 0), !.bc = @ + 1,
      !.at = [a \in DOMAIN @ \cup c |-> IF a \in c THEN "free" ELSE @[a]],
      !.w = [a \in DOMAIN @ \cup c |-> IF a \in c THEN Link(nxt(a)) ELSE @[a]]]
Put(x, id, a, v) == [x EXCEPT !.of = C!Add(@, id, a), !.w = [@ EXCEPT ![a] = Data(v)]]
Malloc == s.up /\ \E id \in Ids \ DOMAIN s.of :
  LET y == IF s.head = 0 THEN Alloc(s) ELSE s a == y.head IN
  IF a \notin DOMAIN y.w \/ y.w[a].k # "l" THEN s' = [s EXCEPT !.left = 0] /\ bad' = "junk" /\ UNCHANGED mv
  ELSE LET x == Put([y EXCEPT !.head = y.w[a].v, !.at = [@ EXCEPT ![a] = IF Mutant = "nostatus" THEN @ ELSE "used"]], id, a, 20 * id)
       IN Go(x, LAMBDA st, f, b, c, u : C!Malloc(0, Sz, id, a + 8, 20 * id, st, f, b, c, u), "Malloc")
(* malloc has no memory: nothing changes *)
Fail == Fails /\ s.up /\ s.head = 0 /\ Go(s, LAMBDA st, f, b, c, u : C!Same(Sz, st, f, b, c, u), "Same")
Give == s.up /\ \E id \in DOMAIN s.of :
  LET a == s.of[id]
      x == [s EXCEPT !.of = C!Del(@, id), !.at = [@ EXCEPT ![a] = IF Mutant = "freestatus" THEN @ ELSE "free"],
            !.w = [@ EXCEPT ![a] = Link(IF Mutant = "losefree" THEN 0 ELSE s.head)], !.head = a]
  IN Go(x, LAMBDA st, f, b, c, u : C!Free(0, Sz, id, st, f, b, c, u), "Free")
Write == s.up /\ \E id \in DOMAIN s.of :
  LET x == [s EXCEPT !.w = [@ EXCEPT ![s.of[id]] = Data(7 + 20 * id)]]
  IN Go(x, LAMBDA st, f, b, c, u : C!Write(Sz, id, 7 + 20 * id, st, f, b, c, u), "Write")
Releasable(b) == LET n == IF Mutant = "cpbnow" THEN s.cp ELSE b.n c == {a \in {Chunk(b, i) : i \in 0..(n - 1)} : a \in DOMAIN s.at} IN
                 IF Mutant = "anyfree" THEN \E a \in c : s.at[a] = "free" ELSE \A a \in c : s.at[a] # "used"
Relink(x, keep) ==  \* the free list without the chunks of released blocks
  LET n == Len(keep) IN [x EXCEPT !.head = IF n = 0 THEN 0 ELSE keep[1],
                                  !.w = [a \in DOMAIN @ |-> IF \E i \in 1..n : keep[i] = a
                                                             THEN LET i == CHOOSE j \in 1..n : keep[j] = a IN Link(IF i = n THEN 0 ELSE keep[i + 1]) ELSE @[a]]]
Has(c, b) == \E i \in 1..Len(c) : c[i] = b
Shrink == s.up /\
  LET out == SelectSeq(s.ch, Releasable)
      gone == UNION {ChunksOf(out[i]) : i \in 1..Len(out)}
      f == Free(s)
      y == IF Mutant = "nounlink" THEN s ELSE Relink(s, SelectSeq(f, LAMBDA a : a \notin gone))
      x == [y EXCEPT !.ch = SelectSeq(@, LAMBDA b : ~Has(out, b)), !.bc = IF Mutant = "keepcount" THEN @ ELSE @ - Len(out),
            !.at = [a \in DOMAIN @ \ gone |-> @[a]], !.w = [a \in DOMAIN @ \ gone |-> @[a]]]
  IN IF ~Has(f, -1) \/ Mutant = "nounlink" THEN Go(x, LAMBDA st, g, b, c, u : C!Shrink(0, Sz, st, g, b, c, u), "Shrink")
     ELSE s' = [s EXCEPT !.left = 0] /\ bad' = "junk" /\ UNCHANGED mv
SetPer == s.up /\ \E n \in PerBlock : LET x == [s EXCEPT !.cp = n] IN
  Go(x, LAMBDA st, f, b, c, u : C!SetPerBlock(Sz, n, st, f, b, c, u), "Cpb")
Next == s.left > 0 /\ bad = "" /\ (New \/ Malloc \/ Fail \/ Give \/ Write \/ Shrink \/ SetPer)
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
(* the free list holds each chunk that is neither used nor gone, once *)
Shape == s.up => LET f == Free(s) IN
  /\ ~Has(f, -1) /\ Len(f) = Cardinality({f[i] : i \in 1..Len(f)})
  /\ {f[i] : i \in 1..Len(f)} = {a \in DOMAIN s.at : s.at[a] = "free"}
  /\ DOMAIN s.at = UNION {ChunksOf(s.ch[i]) : i \in 1..Len(s.ch)} /\ s.bc = Len(s.ch)
=============================================================================
