----------------------------- MODULE Supportive -----------------------------
(***************************************************************************)
(* Models of supportive behaviours.  A model M is a record with            *)
(*   leaf[i] = [hold, conds]: steps, conds is a sequence of [c, o] with c  *)
(*     in "C" (consumes), "U" (uses), "S" (consumes some) and o an object; *)
(*   succs[i], init: next and first steps; steps are followed by the steps *)
(*     of cleaning and of the end;                                         *)
(*   nobj, clear[o], npref, ppref[i];                                      *)
(*   pfail, pall, pobj, ppref2: probabilities of failing to bring, of      *)
(*     consuming all, of spontaneous changes of objects and preferences;   *)
(*   rsub, rfin, rpref, indep, cget, cintr, chold: rewards and costs.      *)
(* A state is a record [h, pr, body, ob] (step, bits).                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Rational, SequencesExt, TLC

Steps(M) == Len(M.leaf)
Clean(M) == Steps(M) + 1
Final(M) == Steps(M) + 2
NH(M) == Steps(M) + 2

------------------------------------------------------------------------------
(* Encoding of states as integers. *)
Pow2(n) == LET F[i \in 0..n] == IF i = 0 THEN 1 ELSE 2 * F[i - 1] IN F[n]
BitsOf(x, n) == [i \in 1..n |-> (x \div Pow2(i - 1)) % 2]
IntOf(b) == LET F[i \in 0..Len(b)] == IF i = 0 THEN 0 ELSE F[i - 1] + b[i] * Pow2(i - 1) IN F[Len(b)]

\* D: [nh, np, nb, no]; steps from 0.  A state is [h, pr, body (bits), ob].
DimStates(D) == D.nh * Pow2(D.np + D.nb + D.no)
DecodeD(D, s) == LET low == D.no + D.nb IN
    [h |-> s \div Pow2(low + D.np), pr |-> BitsOf((s \div Pow2(low)) % Pow2(D.np), D.np),
     body |-> BitsOf((s \div Pow2(D.no)) % Pow2(D.nb), D.nb), ob |-> BitsOf(s % Pow2(D.no), D.no)]
EncodeD(D, x) == x.h * Pow2(D.no + D.nb + D.np) + IntOf(x.pr) * Pow2(D.no + D.nb)
                 + IntOf(x.body) * Pow2(D.no) + IntOf(x.ob)

Dims(M) == [nh |-> NH(M), np |-> M.npref, nb |-> 1, no |-> M.nobj]
Decode(M, s) == [DecodeD(Dims(M), s) EXCEPT !.h = @ + 1]
Encode(M, x) == EncodeD(Dims(M), [x EXCEPT !.h = @ - 1])
NStates(M) == DimStates(Dims(M))
IsFinal(M, s) == Decode(M, s).h = Final(M)

------------------------------------------------------------------------------
(* Actions. *)
Kind(k, x) == [k |-> k, x |-> x]
ObjectActions(M) ==
    LET F[i \in 0..M.nobj] == IF i = 0 THEN <<>>
          ELSE F[i - 1] \o <<Kind("bring", i)>> \o (IF M.clear[i] THEN <<Kind("clear", i)>> ELSE <<>>)
    IN F[M.nobj]
Actions(M) == <<Kind("wait", 0), Kind("H", 0), Kind("V", 0), Kind("ask", 0)>> \o ObjectActions(M)
Observations == <<"none", "fail", "not-found", "yes", "no">>

------------------------------------------------------------------------------
(* Distributions are sequences of records with a field p. *)
Concat(n, f(_)) == FoldLeft(LAMBDA acc, i : acc \o f(i), <<>>, [i \in 1..n |-> i])
Positive(l) == SelectSeq(l, LAMBDA x : x.p[1] > 0)
PSum(l) == FoldLeft(LAMBDA acc, x : RAdd(acc, x.p), RZero, l)
Not(p) == RSub(ROne, p)

\* Sequences of bits: each value v of L[i] with probability L[i][v + 1].
Bits(L) == FoldLeft(LAMBDA acc, q : Positive(Concat(Len(acc), LAMBDA j :
                  << [b |-> Append(acc[j].b, 0), p |-> RMul(acc[j].p, q[1])],
                     [b |-> Append(acc[j].b, 1), p |-> RMul(acc[j].p, q[2])] >>)),
                << [b |-> <<>>, p |-> ROne] >>, L)
\* All changes of bits, each with probability q.
Changes(bits, q) == Bits([i \in 1..Len(bits) |-> IF bits[i] = 1 THEN <<q, Not(q)>> ELSE <<Not(q), q>>])

\* State before the action, after spontaneous changes.
Spontaneous(M, x, random) ==
    IF ~ random THEN << [x |-> x, p |-> ROne] >>
    ELSE LET O == Changes(x.ob, M.pobj)
             Q == Changes(x.pr, M.pchange)
         IN Concat(Len(O), LAMBDA i : [j \in 1..Len(Q) |->
                [x |-> [x EXCEPT !.ob = O[i].b, !.pr = Q[j].b], p |-> RMul(O[i].p, Q[j].p)]])

\* Effects of one step on objects, with what it costs to the human.
Effects(M, ob, conds) ==
    FoldLeft(LAMBDA acc, c : Positive(Concat(Len(acc), LAMBDA j :
             LET y == acc[j]
                 r == y.r - (IF y.ob[c.o] = 1 THEN 0 ELSE M.cget)
                 With(v, p) == [ob |-> [y.ob EXCEPT ![c.o] = v], r |-> r, p |-> RMul(y.p, p)]
             IN CASE c.c = "C" -> << With(0, ROne) >>
                  [] c.c = "U" -> << With(1, ROne) >>
                  [] c.c = "S" -> << With(0, M.pall), With(1, Not(M.pall)) >>)),
       << [ob |-> ob, r |-> 0, p |-> ROne] >>, conds)

\* The step is done by the human.
Progress(M, x, r, p) ==
    LET E == Effects(M, x.ob, M.leaf[x.h].conds)
        S == M.succs[x.h]
    IN Concat(Len(E), LAMBDA i : [j \in 1..Len(S) |->
          [t |-> [x EXCEPT !.h = S[j], !.ob = E[i].ob], o |-> "none", r |-> r + E[i].r,
           p |-> RMul(p, RMul(E[i].p, Rat(1, Len(S))))]])

Present(x) == Cardinality({o \in DOMAIN x.ob : x.ob[o] = 1})
Prefers(x) == x.pr[1] = 1
Suits(M, x, a) == Prefers(x) /\ ((a.k = "H" /\ M.leaf[x.h].hold = "h") \/ (a.k = "V" /\ M.leaf[x.h].hold = "v"))
Stay(x, o, r, p) == << [t |-> x, o |-> o, r |-> r, p |-> p] >>

Act(M, a, x, random) ==
    LET r == IF a.k \in {"H", "V"} THEN - M.chold ELSE 0 IN
    CASE a.k \in {"wait", "H", "V"} ->
           IF x.h = Final(M) THEN Stay(x, "none", r, ROne)
           ELSE IF x.h = Clean(M) THEN
                IF a.k = "wait" THEN Stay([x EXCEPT !.h = Final(M)], "none",
                                          r - M.cget * Present(x) + M.rfin, ROne)
                ELSE Stay(x, "fail", r, ROne)
           ELSE LET done == r + M.rsub + (IF M.indep /\ ~ Prefers(x) THEN M.rpref - M.chold ELSE 0)
                IN IF a.k = "wait" THEN Progress(M, x, done, ROne)
                   ELSE IF Suits(M, x, a) THEN Progress(M, x, done + M.rpref, ROne)
                   ELSE IF ~ random THEN Stay(x, "fail", r, ROne)
                   ELSE Stay(x, "fail", r, Rat(98, 100)) \o Progress(M, x, done, Rat(2, 100))
      [] a.k = "ask" ->
           LET q == IF Prefers(x) THEN Rat(9, 10) ELSE Rat(95, 100)
               yes == IF Prefers(x) THEN "yes" ELSE "no"
           IN IF random THEN Stay(x, yes, - M.cintr, q) \o Stay(x, "none", - M.cintr, Not(q))
              ELSE Stay(x, yes, - M.cintr, ROne)
      [] OTHER ->
           LET v == IF a.k = "bring" THEN 1 ELSE 0
               made == [x EXCEPT !.ob = [@ EXCEPT ![a.x] = v]]
           IN IF x.ob[a.x] = v THEN Stay(x, "not-found", - M.cintr, ROne)
              ELSE IF random THEN Positive(Stay(x, "fail", - M.cintr, M.pfail)
                                           \o Stay(made, "none", - M.cintr, Not(M.pfail)))
              ELSE Stay(made, "none", - M.cintr, ROne)

Outcomes(M, a, x, random) ==
    LET S == Spontaneous(M, x, random) IN
    Concat(Len(S), LAMBDA i : LET A == Act(M, a, S[i].x, random) IN
        [j \in 1..Len(A) |-> [A[j] EXCEPT !.p = RMul(@, S[i].p)]])

\* Start states.
Starts(M) ==
    LET O == Changes([i \in 1..M.nobj |-> 0], M.pobj)
        R == Bits([i \in 1..M.npref |-> <<Not(M.ppref[i]), M.ppref[i]>>])
        n == Len(M.init)
    IN Concat(n, LAMBDA h : Concat(Len(O), LAMBDA i : [j \in 1..Len(R) |->
          [x |-> [h |-> M.init[h], pr |-> R[j].b, body |-> <<0>>, ob |-> O[i].b],
           p |-> RMul(Rat(1, n), RMul(O[i].p, R[j].p))]]))

------------------------------------------------------------------------------
(* Executions through steps. *)
RECURSIVE WalksTo(_, _, _)
WalksTo(M, i, bound) ==   \* from step i, in at most bound steps (<<0>> marks longer ones)
    IF i = Clean(M) THEN {<<>>}
    ELSE IF bound = 0 THEN {<<0>>}
    ELSE UNION {{<<i>> \o w : w \in WalksTo(M, M.succs[i][j], bound - 1)} : j \in 1..Len(M.succs[i])}
AllWalks(M, bound) == UNION {WalksTo(M, M.init[j], bound) : j \in 1..Len(M.init)}

------------------------------------------------------------------------------
(* Steps that are provided. *)
Tools == << [c |-> "U", o |-> "screwdriver"], [c |-> "U", o |-> "screws"] >>
Provided(cls) ==
    CASE cls = "BringTop" -> [hold |-> "", conds |-> << [c |-> "C", o |-> "top"] >>]
      [] cls \in {"AssembleLeg", "AssembleFoot"} ->
           [hold |-> "h", conds |-> << [c |-> "U", o |-> "joints"], [c |-> "C", o |-> "leg"] >> \o Tools]
      [] cls = "AssembleTopJoint" -> [hold |-> "h", conds |-> << [c |-> "U", o |-> "joints"] >> \o Tools]
      [] cls = "AssembleLegToTop" -> [hold |-> "v", conds |-> Tools]
      [] cls = "AssembleLegToTop-top" -> [hold |-> "v", conds |-> << [c |-> "C", o |-> "top"] >> \o Tools]
=============================================================================
