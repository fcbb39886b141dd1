---------------------------- MODULE MCEvaluation ----------------------------
(* All episodes in a small world: states 0..Last, the last one final.        *)
EXTENDS Evaluation, FiniteSets
CONSTANTS Max, Last, Big, P, Q
Rewards == {-700, 1000} \cup (IF Big THEN {0} ELSE {})
VARIABLES e, max, acc, w    \* acc and w: return and weight, from the start
vars == <<e, max, acc, w>>
Fin(s) == s = Last
Init == \E m \in 0..Max : max = m /\ e = NewEpisode(m) /\ acc = 0 /\ w = 1
Pow(x, n) == LET F[i \in 0..n] == IF i = 0 THEN 1 ELSE x * F[i - 1] IN F[n]
Reset == e.phase = "new" /\ ~ e.reset /\ e' = PolicyReset(e) /\ UNCHANGED <<max, acc, w>>
Begin == e.phase = "new" /\ e.reset /\ \E s \in 0..(Last - 1) : e' = Started(e, s) /\ UNCHANGED <<max, acc, w>>
Decide == e.phase = "decide" /\ ~ Over(e, Fin) /\ \E a \in 1..2 : e' = Decided(e, a) /\ UNCHANGED <<max, acc, w>>
Act == e.phase = "act" /\ \E t \in 0..Last, r \in Rewards :
         /\ e' = Acted(e, t, 1, r)
         /\ acc' = acc + r * Pow(P, Len(e.R)) * Pow(Q, Max - Len(e.R))     \* times Q^Max
         /\ UNCHANGED <<max, w>>
Tell == e.phase = "tell" /\ e' = Told(e) /\ UNCHANGED <<max, acc, w>>
Next == Reset \/ Begin \/ Decide \/ Act \/ Tell
Spec == Init /\ [][Next]_vars
Shape == e.phase # "new" => /\ Len(e.S) = Len(e.A) + (IF e.phase = "act" THEN 1 ELSE 1)
                            /\ Len(e.A) = Len(e.O) /\ Len(e.A) = Len(e.R) /\ Len(e.A) + e.left = max
EndsRight == /\ Len(e.A) <= max
             /\ \A i \in 2..(Len(e.S) - 1) : ~ Fin(e.S[i])
\* Return from the last reward is the one from the first, but for rounding.
Abs(x) == IF x < 0 THEN - x ELSE x
SameReturn == Abs(Return(e.R, P, Q) * Pow(Q, Max) - acc) <= (Len(e.R) + 1) * Pow(Q, Max)
=============================================================================
