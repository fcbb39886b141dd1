----------------------------- MODULE MCParticle -----------------------------
(* All particle beliefs of all small models, with the states that are really *)
(* possible and the hidden state.                                            *)
EXTENDS Particle
CONSTANTS NPart, MaxSteps, Budget
VARIABLES m, hid, c, X, hist, found, spent, ao, prev

vars == <<m, hid, c, X, hist, found, spent, ao, prev>>
Rows == {<<2, 0>>, <<1, 1>>, <<0, 2>>}
Models == {[n |-> 2, D |-> 2, start |-> s, T |-> T, O |-> O] :
             s \in {<<1, 1>>, <<2, 0>>}, T \in [1..1 -> [1..2 -> Rows]], O \in [1..1 -> [1..2 -> Rows]]}
Counts(n) == {x \in [1..2 -> 0..n] : x[1] + x[2] = n}
Zero == <<0, 0>>

Init == /\ m \in Models /\ hid \in Support(m.start)
        /\ c \in {x \in Counts(NPart) : Support(x) \subseteq Support(m.start)}
        /\ X = Support(m.start) /\ hist = <<>> /\ found = Zero /\ spent = 0 /\ ao = <<>> /\ prev = c

\* An action is made and an observation received.
Observe == /\ ao = <<>> /\ Len(hist) < MaxSteps
           /\ \E t \in 1..2, o \in 1..2 :
                /\ m.T[1][hid][t] > 0 /\ m.O[1][t][o] > 0
                /\ hid' = t /\ ao' = <<1, o>>
           /\ found' = Zero /\ spent' = 0 /\ prev' = c
           /\ UNCHANGED <<m, c, X, hist>>
\* One transition is sampled, from one of the particles.
Sample == /\ ao # <<>> /\ spent < Budget /\ Total(found) < NPart
          /\ spent' = spent + 1
          /\ \E s, t, o \in 1..2 :
               /\ CanSample(m, c, 1, s, t, o)
               /\ found' = IF o = ao[2] THEN [found EXCEPT ![t] = @ + 1] ELSE found
          /\ UNCHANGED <<m, hid, c, X, hist, ao, prev>>
\* The new belief, when enough were found or the budget is spent.
Make == /\ ao # <<>> /\ (spent = Budget \/ Total(found) = NPart) /\ Total(found) > 0
        /\ \E x \in Counts(NPart) : Made(found, x, NPart) /\ c' = x
        /\ X' = Succ(m, 1, ao[2], X) /\ hist' = Append(hist, ao) /\ ao' = <<>>
        /\ UNCHANGED <<m, hid, found, spent, prev>>
\* The new belief could not be made.
Fail == /\ ao # <<>> /\ spent = Budget /\ Total(found) = 0
        /\ ao' = <<>> /\ hist' = Append(hist, <<0, 0>>)
        /\ UNCHANGED <<m, hid, c, X, found, spent, prev>>
Next == Observe \/ Sample \/ Make
Spec == Init /\ [][Next]_vars
SpecFail == Init /\ [][Next \/ Fail]_vars

Size == IsBelief(c, NPart, 2)
OnlyPossible == Support(c) \subseteq X
FoundPossible == Support(found) \subseteq (IF ao = <<>> THEN X ELSE Succ(m, 1, ao[2], X))
Kept == ao # <<>> => c = prev
\* Finding nothing is sure to happen only when the observation is impossible for
\* the particles.
CanFind == ao # <<>> => (Likelihood(m, 1, ao[2], c) > 0 <=> Succ(m, 1, ao[2], Support(c)) # {})
Exact == (ao = <<>> /\ Total(found) = NPart /\ hist # <<>>) => c = found
=============================================================================
