----------------------------- MODULE SearchTree -----------------------------
(***************************************************************************)
(* Monte-Carlo search trees.  P are the parameters of the search:          *)
(*   na, no: numbers of actions and observations                           *)
(*   shared: whether nodes are those of histories or of beliefs            *)
(*   succ: (shared) succ[k][a][o]: number of the belief after belief k     *)
(*   dp, dq: discount dp/dq    alpha: weight of recent values, per mille   *)
(*   rollouts: rollouts below new nodes                                    *)
(*   c: ten times the exploration constant    rel: relative exploration    *)
(*   kind, hn: kind and length of the horizon                              *)
(*   div, fin: numbers of states by step, and final step (supportive)      *)
(* Values are integers (thousandths).  A tree N maps keys (histories, or   *)
(* numbers of beliefs, as sequences) to nodes                              *)
(*   [n: visits, v: value, made: visits on creation,                       *)
(*    kid: [action -> [n, v]], edge: [action -> [observation -> key or 0]]]*)
(* A simulation is a record sim that consumes transitions of the model.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, LogTable

Rnd(x, y) == (2 * x + y) \div (2 * y)

Root(P) == IF P.shared THEN <<1>> ELSE <<>>
Child(P, k, a, o, e) == IF P.shared THEN <<e>> ELSE k \o <<a, o>>
\* Value of an edge for a child that is to be created.
EdgeTo(P, k, a, o) == IF P.shared THEN P.succ[k[1]][a][o] ELSE 1

EmptyNode(P) == [n |-> 0, v |-> 0, made |-> 0, kid |-> [a \in 1..P.na |-> [n |-> 0, v |-> 0]],
                 edge |-> [a \in 1..P.na |-> [o \in 1..P.no |-> 0]]]
EmptyTree(P) == [k \in {Root(P)} |-> EmptyNode(P)]
HasEdge(N, k, a, o) == N[k].edge[a][o] # 0

\* The tree with an edge and its node (which may exist already when shared).
Grow(P, N, k, a, o) ==
    LET e == EdgeTo(P, k, a, o)
        c == Child(P, k, a, o, e)
        N1 == [N EXCEPT ![k].edge[a][o] = e]
    IN [x \in DOMAIN N1 \cup {c} |-> IF x \in DOMAIN N1 THEN N1[x] ELSE EmptyNode(P)]

\* Average [n, v] with a new value.
Upd(P, x, y) ==
    LET mean == Rnd(x.n * x.v + y, x.n + 1)
    IN [x EXCEPT !.n = x.n + 1,
                 !.v = IF P.alpha = 0 THEN mean ELSE Rnd((1000 - P.alpha) * mean + P.alpha * y, 1000)]
UpdNode(P, N, k, y) == LET m == Upd(P, [n |-> N[k].n, v |-> N[k].v], y)
                       IN [N EXCEPT ![k].n = m.n, ![k].v = m.v]

------------------------------------------------------------------------------
(* Horizons. *)
HzStart(P) == [n |-> P.hn, fin |-> FALSE]
Reached(h) == h.n <= 0 \/ h.fin
StepOf(P, s) == s \div P.div
Dec(P, h, s, t) ==
    IF P.kind = "trans" THEN [h EXCEPT !.n = h.n - 1]
    ELSE IF P.kind = "final" THEN [n |-> h.n - 1, fin |-> StepOf(P, t) = P.fin]
    ELSE [h EXCEPT !.n = IF StepOf(P, t) = P.fin THEN 0
                         ELSE IF StepOf(P, s) # StepOf(P, t) THEN h.n - 1 ELSE h.n]

------------------------------------------------------------------------------
(* Choice of actions. *)
RECURSIVE Isqrt(_, _, _)
Isqrt(x, lo, hi) == IF hi - lo <= 1 THEN lo
    ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN Isqrt(x, m, hi) ELSE Isqrt(x, lo, m)
\* sqrt(ln(n) / m) times 10^4
Bonus(n, m) == Isqrt(Ln8[n] \div m, 0, 30000)

Unexplored(P, N, k) == {a \in 1..P.na : N[k].kid[a].n = 0}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Range(P, N, k) == LET V == {N[k].kid[a].v : a \in 1..P.na} IN MaxOf(V) - MinOf(V)
\* Bounds have the uncertainty given by Slack.
Bound(P, N, k, a) ==
    LET b == Bonus(N[k].n, N[k].kid[a].n) IN
    N[k].kid[a].v + IF P.rel THEN (((P.c * Range(P, N, k)) \div 10) * (b \div 10)) \div 1000
                    ELSE (P.c * b) \div 100
Slack(P, N, k) == 8 + IF P.rel THEN (P.c * Range(P, N, k)) \div 2000 + 2 * P.c ELSE P.c \div 25
Explored(P, N, k) ==
    IF Unexplored(P, N, k) # {} THEN Unexplored(P, N, k)
    ELSE LET B == [a \in 1..P.na |-> Bound(P, N, k, a)] IN
         {a \in 1..P.na : \A b \in 1..P.na : B[b] - B[a] <= Slack(P, N, k)}
Exploited(P, N, k, tol) ==
    IF Unexplored(P, N, k) # {} THEN Unexplored(P, N, k)
    ELSE {a \in 1..P.na : \A b \in 1..P.na : N[k].kid[b].v - N[k].kid[a].v <= tol}

------------------------------------------------------------------------------
(* Simulations. *)
NoState == -1
Idle == [todo |-> 0]
Running(sim) == sim.todo > 0

Fresh(P, from, forced, todo) ==
    IF Reached(HzStart(P)) THEN Idle
    ELSE [todo |-> todo, from |-> from, forced |-> forced, mode |-> "tree", key |-> from,
          s |-> NoState, hz |-> HzStart(P), path |-> <<>>, left |-> 0, acc |-> 0,
          rew |-> <<>>, hz0 |-> HzStart(P)]

\* Action that may be taken next.
Choices(P, N, sim) ==
    IF sim.mode = "roll" THEN 1..P.na
    ELSE IF sim.path = <<>> /\ sim.forced > 0 THEN {sim.forced}
    ELSE Explored(P, N, sim.key)

Discounted(P, x) == Rnd(P.dp * x, P.dq)
Return(P, rew) == LET F[i \in 0..Len(rew)] ==
        IF i = 0 THEN 0 ELSE rew[Len(rew) - i + 1] + Discounted(P, F[i - 1])
    IN F[Len(rew)]

\* Updates all nodes of the path, from the last one.
BackUp(P, N, path, ret) ==
    LET n == Len(path)
        F[i \in 0..n] ==
            IF i = 0 THEN [N |-> N, r |-> ret]
            ELSE LET x == path[n - i + 1]
                     full == x.r + Discounted(P, F[i - 1].r)
                     N1 == [F[i - 1].N EXCEPT ![x.key].kid[x.a] = Upd(P, @, full)]
                 IN [N |-> UpdNode(P, N1, x.key, full), r |-> full]
    IN F[n].N

Done(P, N, sim, path, ret) ==
    [N |-> BackUp(P, N, path, ret),
     sim |-> IF sim.todo = 1 THEN Idle ELSE Fresh(P, sim.from, sim.forced, sim.todo - 1)]

\* The tree and simulation after transition c = [a, s, t, o, r] (failed: no belief
\* could be found after it).
AfterTree(P, N, sim, c) ==
    LET k == sim.key
        hz == Dec(P, sim.hz, c.s, c.t)
        path == Append(sim.path, [key |-> k, a |-> c.a, r |-> c.r])
    IN IF HasEdge(N, k, c.a, c.o)
       THEN LET ck == Child(P, k, c.a, c.o, N[k].edge[c.a][c.o]) IN
            IF Reached(hz) THEN Done(P, N, sim, path, N[ck].v)
            ELSE [N |-> N, sim |-> [sim EXCEPT !.key = ck, !.s = c.t, !.hz = hz, !.path = path]]
       ELSE IF c.failed THEN Done(P, N, sim, path, 0)
       ELSE LET N1 == Grow(P, N, k, c.a, c.o)
                ck == Child(P, k, c.a, c.o, N1[k].edge[c.a][c.o])
            IN IF Reached(hz) THEN Done(P, N1, sim, path, 0)
               ELSE [N |-> N1, sim |-> [sim EXCEPT !.mode = "roll", !.key = ck, !.s = NoState,
                       !.hz = hz, !.hz0 = hz, !.path = path, !.left = P.rollouts, !.acc = 0, !.rew = <<>>]]
AfterRoll(P, N, sim, c) ==
    LET hz == Dec(P, sim.hz, c.s, c.t)
        rew == Append(sim.rew, c.r)
        acc == sim.acc + Return(P, rew)
        ret == Rnd(acc, P.rollouts)
    IN IF ~ Reached(hz) THEN [N |-> N, sim |-> [sim EXCEPT !.s = c.t, !.hz = hz, !.rew = rew]]
       ELSE IF sim.left > 1
       THEN [N |-> N, sim |-> [sim EXCEPT !.s = NoState, !.hz = sim.hz0, !.rew = <<>>,
                                          !.left = sim.left - 1, !.acc = acc]]
       ELSE Done(P, [UpdNode(P, N, sim.key, ret) EXCEPT ![sim.key].made = @ + 1], sim, sim.path, ret)
After(P, N, sim, c) == IF sim.mode = "tree" THEN AfterTree(P, N, sim, c) ELSE AfterRoll(P, N, sim, c)
=============================================================================
