------------------------------ MODULE StrImpl ------------------------------
(* The loops of the string view's searches, one comparison per step, for all  *)
(* short texts, patterns and starting positions, against StrView.             *)
EXTENDS StrView
CONSTANTS Abc, MaxS, MaxV, Mutant
VARIABLES f, s, v, k,   \* the question
          i, n, pc, r   \* cursor, steps made, where the loop is, answer
vars == <<q, f, s, v, k, i, n, pc, r>>
Words(m) == UNION {[1..j -> Abc] : j \in 0..m}
Fs == {"find", "rfind", "ffo", "flo", "ffn", "fln"}
Back == {"rfind", "flo", "fln"}
Init == /\ q = <<<<>>, <<>>>> /\ f \in Fs /\ s \in Words(MaxS) /\ v \in Words(MaxV) /\ k \in -1..MaxS + 1
        /\ (f = "find" => k \in 0..Len(s)) /\ (f = "rfind" => v # <<>>)
        /\ i = 0 /\ n = 0 /\ pc = "start" /\ r = -2
Done(x) == r' = x /\ pc' = "done" /\ UNCHANGED i
Go(x) == i' = x /\ pc' = "look" /\ UNCHANGED r
Begin == /\ pc = "start" /\ n' = n + 1
         /\ IF f \in Back
            THEN IF Len(s) = 0 THEN Done(-1) ELSE Go(IF k = -1 THEN Len(s) - 1 ELSE Min(Len(s) - 1, k))
            ELSE IF k = -1 THEN Done(-1) ELSE Go(k)
\* comparing up to a zero byte only
RECURSIVE Nul(_, _, _)
Nul(a, b, j) == IF j > Len(b) THEN TRUE ELSE IF a[j] # b[j] THEN FALSE ELSE IF b[j] = 0 THEN TRUE ELSE Nul(a, b, j + 1)
Hit == CASE f \in {"find", "rfind"} -> IF Mutant = "nul" THEN i + Len(v) <= Len(s) /\ Nul(SubSeq(s, i + 1, i + Len(v)), v, 1)
                                       ELSE i + Len(v) <= Len(s) /\ SubSeq(s, i + 1, i + Len(v)) = v
         [] f \in {"ffo", "flo"} -> i < Len(s) /\ In(v, s[i + 1])
         [] f = "ffn" -> i < Len(s) /\ ~In(v, s[i + 1])
         [] f = "fln" -> IF Mutant = "inverted" THEN In(v, s[i + 1]) ELSE ~In(v, s[i + 1])
Look == /\ pc = "look" /\ n' = n + 1
        /\ IF f \in Back
           THEN IF i = 0 /\ Mutant = "notfirst" THEN Done(-1)
                ELSE IF Hit THEN Done(IF Mutant = "retpos" THEN k ELSE i)
                ELSE IF i = 0 THEN Done(-1) ELSE Go(IF Mutant = "stay" /\ n < 2 * MaxS + 4 THEN i ELSE i - 1)
           ELSE IF f = "find" THEN IF i > Len(s) - Len(v) THEN Done(-1) ELSE IF Hit THEN Done(i) ELSE Go(i + 1)
           ELSE IF i >= Len(s) THEN Done(-1) ELSE IF Hit THEN Done(i) ELSE Go(i + 1)
Stop == pc = "done" /\ UNCHANGED <<n, i, r, pc>>
Next == (Begin \/ Look \/ Stop) /\ UNCHANGED <<q, f, s, v, k>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Right == pc = "done" => r = Answer(f, s, v, k)
Bounded == n <= Len(s) + 3                 \* every search ends within one pass
Ends == <>(pc = "done")
=============================================================================
