------------------------------ MODULE MCPomdp ------------------------------
(* Beliefs of all small models, along all histories, with the hidden state.  *)
EXTENDS Pomdp
CONSTANTS NA, MaxSteps
VARIABLES m, hid, w, hist

Rows == {<<2, 0>>, <<1, 1>>, <<0, 2>>}
Models == {[n |-> 2, D |-> 2, start |-> s, T |-> T, O |-> O] :
             s \in {<<1, 1>>, <<2, 0>>}, T \in [1..NA -> [1..2 -> Rows]], O \in [1..NA -> [1..2 -> Rows]]}

Init == m \in Models /\ hid \in Support(m.start) /\ w = Start(m) /\ hist = <<>>
Next == /\ Len(hist) < MaxSteps
        /\ UNCHANGED m
        /\ \E a \in 1..NA, t \in 1..2, o \in 1..2 :
             /\ m.T[a][hid][t] > 0 /\ m.O[a][t][o] > 0
             /\ hid' = t
             /\ w' = Bayes(m, a, o, w)
             /\ hist' = Append(hist, <<a, o>>)
Spec == Init /\ [][Next]_<<m, hid, w, hist>>

\* Joint weight of the history and the hidden state, summed over all paths.
RECURSIVE Joint(_, _)
Joint(h, t) == IF h = <<>> THEN m.start[t]
    ELSE LET k == Len(h) IN m.O[h[k][1]][t][h[k][2]] *
         SumOver(2, LAMBDA s : m.T[h[k][1]][s][t] * Joint(SubSeq(h, 1, k - 1), s))

\* The belief is proportional to the probability of states given the history.
Posterior == \A s, t \in 1..2 : w[s] * Joint(hist, t) = w[t] * Joint(hist, s)
Truth == hid \in Support(w)
Normal == WSum(w) > 0 /\ GcdAll(w) = 1
SupportExact == \A a \in 1..NA, o \in 1..2 :
    /\ Possible(m, a, o, w) <=> Succ(m, a, o, Support(w)) # {}
    /\ Possible(m, a, o, w) => Support(Bayes(m, a, o, w)) = Succ(m, a, o, Support(w))
ObservationsSum == \A a \in 1..NA :
    SumOver(2, LAMBDA o : WSum(Weights(m, a, o, w))) = m.D * m.D * WSum(w)
=============================================================================
