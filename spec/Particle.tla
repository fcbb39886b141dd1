------------------------------ MODULE Particle ------------------------------
(***************************************************************************)
(* Beliefs made of n particles.  A belief is the number of particles in    *)
(* each state.  The successor of a belief is sampled: found is the number  *)
(* of times that each state was reached with the right observation.        *)
(***************************************************************************)
EXTENDS Pomdp

Total(c) == WSum(c)
IsBelief(c, n, ns) == Len(c) = ns /\ Total(c) = n /\ \A s \in 1..ns : c[s] >= 0

\* Transitions that can be sampled to find a successor.
CanSample(M, c, a, s, t, o) == s \in Support(c) /\ M.T[a][s][t] > 0 /\ M.O[a][t][o] > 0

\* Beliefs that can be made from what was found: all of it, completed by duplicates
\* when there is not enough; a part of it when there is more than needed.
Made(found, c, n) ==
    /\ Total(found) > 0
    /\ Support(c) \subseteq Support(found)
    /\ IF Total(found) <= n THEN \A s \in 1..Len(c) : c[s] >= found[s]
       ELSE \A s \in 1..Len(c) : c[s] <= found[s]

\* Probability of an observation from a belief, as the numerator of a fraction.
Likelihood(M, a, o, c) == SumOver(M.n, LAMBDA t : Weights(M, a, o, c)[t])
LikelihoodOf(M, c) == M.D * M.D * Total(c)
=============================================================================
