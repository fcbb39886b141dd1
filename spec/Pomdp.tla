------------------------------- MODULE Pomdp -------------------------------
(***************************************************************************)
(* Partially observable processes with exact beliefs.                      *)
(* M is a record [n, D, start, T, O]: start[s], T[a][s][s'], O[a][s'][o]   *)
(* are integers, probabilities being these integers divided by D.          *)
(* A belief is a function w of non-negative integer weights over 1..n, not *)
(* all null, without common divisor.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Rational, TLC

SumOver(n, f(_)) == LET F[i \in 0..n] == IF i = 0 THEN 0 ELSE F[i - 1] + f(i) IN F[n]
WSum(w) == SumOver(Len(w), LAMBDA i : w[i])

GcdAll(w) == LET F[i \in 0..Len(w)] == IF i = 0 THEN 0 ELSE Gcd(F[i - 1], w[i]) IN F[Len(w)]
Reduce(w) == LET g == GcdAll(w) IN IF g <= 1 THEN w ELSE [i \in 1..Len(w) |-> w[i] \div g]

\* Unnormalised belief after action a and observation o.
Weights(M, a, o, w) ==
    [t \in 1..M.n |-> M.O[a][t][o] * SumOver(M.n, LAMBDA s : w[s] * M.T[a][s][t])]
Possible(M, a, o, w) == WSum(Weights(M, a, o, w)) > 0
Bayes(M, a, o, w) == Reduce(Weights(M, a, o, w))
Start(M) == Reduce(M.start)

\* States that can be reached, ignoring probabilities.
Succ(M, a, o, X) == {t \in 1..M.n : M.O[a][t][o] > 0 /\ \E s \in X : M.T[a][s][t] > 0}
Support(w) == {s \in 1..Len(w) : w[s] > 0}

Valid(M) ==
    /\ WSum(M.start) = M.D
    /\ \A a \in 1..Len(M.T), s \in 1..M.n : WSum(M.T[a][s]) = M.D
    /\ \A a \in 1..Len(M.O), s \in 1..M.n : WSum(M.O[a][s]) = M.D

\* Approximation of a belief, as integers over K.
Scaled(w, K) == [i \in 1..Len(w) |-> (2 * K * w[i] + WSum(w)) \div (2 * WSum(w))]
Close(x, w, K, tol) == LET y == Scaled(w, K) IN
    Len(x) = Len(w) /\ \A i \in 1..Len(w) : x[i] - y[i] \in (-tol)..tol
\* Weights are small enough for the above (integers have 32 bits).
Small(w, K) == WSum(w) < 1000000000 \div K

\* Probabilities of different magnitudes, at leading order: <<c, e>> stands for
\* c * eps^e for some negligible eps, <<0, 0>> for zero.
LAdd(x, y) == IF x[1] = 0 THEN y ELSE IF y[1] = 0 THEN x
              ELSE IF x[2] < y[2] THEN x ELSE IF y[2] < x[2] THEN y
              ELSE <<x[1] + y[1], x[2]>>
LMul(x, y) == IF x[1] * y[1] = 0 THEN <<0, 0>> ELSE <<x[1] * y[1], x[2] + y[2]>>
LSumOver(n, f(_)) == LET F[i \in 0..n] == IF i = 0 THEN <<0, 0>> ELSE LAdd(F[i - 1], f(i)) IN F[n]
LWeights(M, a, o, w) ==
    [t \in 1..M.n |-> LMul(M.LO[a][t][o], LSumOver(M.n, LAMBDA s : LMul(w[s], M.LT[a][s][t])))]
LTotal(w) == LSumOver(Len(w), LAMBDA i : w[i])
LReduce(w) == LET e == LTotal(w)[2]
                  g == GcdAll([i \in 1..Len(w) |-> w[i][1]])
              IN [i \in 1..Len(w) |-> IF w[i][1] = 0 THEN w[i] ELSE <<w[i][1] \div g, w[i][2] - e>>]
\* What remains of it when eps is null.
LFinite(w) == LET e == LTotal(w)[2]
              IN [i \in 1..Len(w) |-> IF w[i][2] = e THEN w[i][1] ELSE 0]

\* Values of a vector v at w (times the sum of w).
Dot(v, w) == SumOver(Len(w), LAMBDA i : v[i] * w[i])
Best(values, w) == {i \in 1..Len(values) :
    \A j \in 1..Len(values) : Dot(values[j], w) <= Dot(values[i], w)}
=============================================================================
