----------------------------- MODULE OwnerImpl -----------------------------
(* Any (any.h): a pointer to a heap cell that carries the type; copies clone  *)
(* the cell, assignments build a temporary and swap. Refines Owner, and every *)
(* cell belongs to exactly one slot or is free.                               *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, Cells, Vals, Mutant
VARIABLES p,     \* pointer of every slot, 0 for none
          m,     \* the cells: <<>> when free
          err    \* a cell was given back twice
vars == <<p, m, err>>
Slots == 1..N
Kinds == {"n", "o"}
hh == [i \in Slots |-> IF p[i] = 0 THEN <<>> ELSE m[p[i]]]
C == INSTANCE Owner WITH h <- hh
Init == p = [i \in Slots |-> 0] /\ m = [a \in 1..Cells |-> <<>>] /\ err = FALSE
Free(mm) == {a \in 1..Cells : mm[a] = <<>>}
New(mm) == CHOOSE a \in Free(mm) : \A d \in Free(mm) : a <= d
\* giving a cell back
Del(mm, a) == IF a = 0 \/ Mutant = "leak" THEN mm ELSE [mm EXCEPT ![a] = <<>>]
Twice(mm, a) == a # 0 /\ mm[a] = <<>>
\* A(tmp).swap(slot); the temporary takes what the slot had
Assign(b, e) == /\ Free(m) # {}
                /\ LET a == New(m) m1 == [m EXCEPT ![a] = e] IN
                   /\ p' = [p EXCEPT ![b] = a] /\ m' = Del(m1, p[b]) /\ err' = (err \/ Twice(m1, p[b]))
Set(b, e) == Assign(b, e)
Cpy(b, c) == IF p[c] = 0 THEN p' = [p EXCEPT ![b] = 0] /\ m' = Del(m, p[b]) /\ err' = (err \/ Twice(m, p[b]))
             ELSE IF Mutant = "share" THEN p' = [p EXCEPT ![b] = p[c]] /\ m' = (IF b = c THEN m ELSE Del(m, p[b])) /\ UNCHANGED err
             ELSE IF Mutant = "freefirst" THEN
               LET m1 == Del(m, p[b]) a == New(m1) IN p' = [p EXCEPT ![b] = a] /\ m' = [m1 EXCEPT ![a] = m1[p[c]]] /\ UNCHANGED err
             ELSE Assign(b, m[p[c]])
Mas(b, c) == b # c /\ p' = [p EXCEPT ![b] = p[c], ![c] = p[b]] /\ UNCHANGED <<m, err>>
Mct(b, c) == b # c /\ p' = [p EXCEPT ![b] = p[c], ![c] = IF Mutant = "keepsource" THEN p[c] ELSE 0]
             /\ m' = Del(m, p[b]) /\ err' = (err \/ Twice(m, p[b]))
Clr(b) == p' = [p EXCEPT ![b] = IF Mutant = "dangle" THEN p[b] ELSE 0] /\ m' = Del(m, p[b]) /\ err' = (err \/ Twice(m, p[b]))
Swp(b, c) == p' = [p EXCEPT ![b] = p[c], ![c] = p[b]] /\ UNCHANGED <<m, err>>
Mod(b, v) == p[b] # 0 /\ m' = [m EXCEPT ![p[b]] = <<m[p[b]][1], v>>] /\ UNCHANGED <<p, err>>
Next == \/ \E b \in Slots : \/ \E k \in Kinds, v \in Vals : Set(b, <<k, v>>)
                            \/ Clr(b) \/ \E v \in Vals : Mod(b, v)
        \/ \E b, c \in Slots : Cpy(b, c) \/ Mas(b, c) \/ Mct(b, c) \/ Swp(b, c)
Spec == Init /\ [][Next]_vars
OwnedOnce == /\ \A i, j \in Slots : i # j /\ p[i] # 0 => p[i] # p[j]
             /\ \A i \in Slots : p[i] # 0 => m[p[i]] # <<>>
             /\ \A a \in 1..Cells : m[a] # <<>> => \E i \in Slots : p[i] = a     \* nothing is lost
             /\ ~err
CNext == \E b \in Slots : \/ \E k \in Kinds, v \in Vals : C!Set(b, <<k, v>>)
                          \/ C!Clear(b) \/ (\E v \in Vals : C!Modify(b, v))
                          \/ \E c \in Slots : C!Copy(b, c) \/ C!Move(b, c) \/ C!Swap(b, c)
Refines == [][CNext]_hh
=============================================================================
