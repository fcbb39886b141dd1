----------------------------- MODULE Evaluation -----------------------------
(***************************************************************************)
(* One evaluation: an episode of at most max transitions that ends in a    *)
(* final state.  e is [phase, s (current state), left, S, A, O, R (what    *)
(* was recorded), a (action given by the policy), calls].                  *)
(* Rewards are integers (thousandths).                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences

Rnd(x, y) == (2 * x + y) \div (2 * y)
NewEpisode(max) == [phase |-> "new", reset |-> FALSE, s |-> -1, left |-> max, S |-> <<>>, A |-> <<>>, O |-> <<>>, R |-> <<>>,
                    a |-> 0, calls |-> 0]
PolicyReset(e) == [e EXCEPT !.reset = TRUE]
Started(e, s) == [e EXCEPT !.phase = "decide", !.s = s, !.S = <<s>>]
Over(e, IsFin(_)) == e.left <= 0 \/ (Len(e.A) > 0 /\ IsFin(e.s))
Decided(e, a) == [e EXCEPT !.phase = "act", !.a = a]
Acted(e, t, o, r) == [e EXCEPT !.phase = "tell", !.s = t, !.left = @ - 1, !.calls = @ + 1, !.S = Append(@, t),
                        !.A = Append(@, e.a), !.O = Append(@, o), !.R = Append(@, r)]
Told(e) == [e EXCEPT !.phase = "decide"]
\* Discounted sum of rewards (discount p/q), from the last one.
Return(R, p, q) == LET F[i \in 0..Len(R)] == IF i = 0 THEN 0 ELSE R[Len(R) - i + 1] + Rnd(p * F[i - 1], q)
                   IN F[Len(R)]
=============================================================================
