------------------------------- MODULE Owner -------------------------------
(* Contract of the owners of one value - Any, UniqueAny, optional (property   *)
(* P31). A slot holds nothing, <<>>, or a value of one type, <<type, value>>. *)
EXTENDS Integers, Sequences
CONSTANT N
VARIABLES h
ovars == <<h>>
Slots == 1..N
Set(b, e) == h' = [h EXCEPT ![b] = e]
Clear(b) == h' = [h EXCEPT ![b] = <<>>]
Copy(b, c) == h' = [h EXCEPT ![b] = h[c]]
Swap(b, c) == h' = [h EXCEPT ![b] = h[c], ![c] = h[b]]
(* what the source of a move is left with is one of the values that were there, or nothing *)
Move(b, c) == \E x \in {<<>>, h[b], h[c]} : h' = [h EXCEPT ![b] = h[c], ![c] = x]
Modify(b, v) == h[b] # <<>> /\ h' = [h EXCEPT ![b] = <<h[b][1], v>>]
(* the values of one type that exist *)
RECURSIVE Count(_, _, _)
Count(g, k, i) == IF i > N THEN 0 ELSE (IF g[i] = <<>> THEN 0 ELSE IF g[i][1] = k THEN 1 ELSE 0) + Count(g, k, i + 1)
=============================================================================
