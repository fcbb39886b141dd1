---------------------------- MODULE MCSearchTree ----------------------------
(* All behaviours of a search on a small model: any action that may be       *)
(* chosen, any outcome, interleaved with steps of the planner.               *)
EXTENDS SearchTree, TLC
CONSTANTS Sims, Len_, Rolls, Shared, Kind
VARIABLES N, sim, k, cur, ghost, starts

\* Three states, in a loop with action 1; action 2 stays.  State 3 is final.
\* Beliefs 1..2 (shared): observation 1 tells the first belief.
P == [na |-> 2, no |-> 2, shared |-> Shared, dp |-> 1, dq |-> 1, alpha |-> 0,
      rollouts |-> Rolls, c |-> 10, rel |-> FALSE, kind |-> Kind, hn |-> Len_, div |-> 1, fin |-> 3,
      succ |-> <<<< <<1, 2>>, <<1, 0>> >>, << <<1, 2>>, <<2, 2>> >>>>]
Target(a, s) == IF a = 1 THEN IF s = 3 THEN 3 ELSE s + 1 ELSE s
Calls == {c \in [a : 1..2, s : 1..3, t : 1..3, o : 1..2, r : {0, 1000}, failed : {FALSE}] :
            c.t = Target(c.a, c.s) /\ (c.r = 1000) = (c.t # c.s)}
Allowed(c) == /\ sim.s = NoState \/ c.s = sim.s
              /\ c.a \in Choices(P, N, sim)
              /\ (sim.mode = "tree" /\ Shared) => P.succ[sim.key[1]][c.a][c.o] # 0

\* ghost: sum of the returns counted by each node
NoGhost == [x \in {} |-> 0]
G(x) == IF x \in DOMAIN ghost THEN ghost[x] ELSE 0
Init == N = EmptyTree(P) /\ sim = Idle /\ k = 0 /\ cur = Root(P) /\ ghost = NoGhost /\ starts = 0
Begin == /\ ~ Running(sim) /\ k < Sims /\ k' = k + 1
         /\ \E f \in {0, 1} : sim' = Fresh(P, cur, f, 1)
         /\ starts' = IF cur = Root(P) /\ Running(sim') THEN starts + 1 ELSE starts
         /\ UNCHANGED <<N, cur, ghost>>
Call == /\ Running(sim)
        /\ \E c \in Calls : Allowed(c) /\ LET r == After(P, N, sim, c) IN
              /\ N' = r.N /\ sim' = r.sim
              /\ ghost' = [x \in DOMAIN r.N |-> G(x) +
                     IF x \in DOMAIN N THEN (r.N[x].v * r.N[x].n - N[x].v * N[x].n)
                     ELSE r.N[x].v * r.N[x].n]
        /\ UNCHANGED <<k, cur, starts>>
Step == /\ ~ Running(sim) /\ k > 0 /\ k < Sims
        /\ \E a \in 1..2, o \in 1..2 : HasEdge(N, cur, a, o) /\ cur' = Child(P, cur, a, o, N[cur].edge[a][o])
        /\ UNCHANGED <<N, sim, k, ghost, starts>>
Reset == ~ Running(sim) /\ cur' = Root(P) /\ UNCHANGED <<N, sim, k, ghost, starts>>
Next == Begin \/ Call \/ Step \/ Reset
vars == <<N, sim, k, cur, ghost, starts>>
Spec == Init /\ [][Next]_vars

Sum(S, f(_)) == LET RECURSIVE F(_)
                    F(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN f(x) + F(T \ {x})
                IN F(S)
\* Visits of a node are those of its actions and those made on its creation.
VisitsAddUp == \A x \in DOMAIN N : N[x].n = Sum(1..2, LAMBDA a : N[x].kid[a].n) + N[x].made
\* Without sharing, a node is made once and entered only through its parent.
Entered == (~ Shared /\ ~ Running(sim)) => \A x \in DOMAIN N :
    /\ N[x].made <= 1
    /\ x # Root(P) =>
        LET p == SubSeq(x, 1, Len(x) - 2) IN p \in DOMAIN N /\ N[p].edge[x[Len(x) - 1]][x[Len(x)]] = 1
EdgesToNodes == \A x \in DOMAIN N, a \in 1..2, o \in 1..2 :
    HasEdge(N, x, a, o) => Child(P, x, a, o, N[x].edge[a][o]) \in DOMAIN N
\* Rewards are in [0, 1]: values are within what the horizons of the simulations allow
\* (a simulation that ends on a known node counts its value).
ValuesPossible == \A x \in DOMAIN N : N[x].v \in 0..(1000 * Len_ * (k + 1)) /\
    \A a \in 1..2 : N[x].kid[a].v \in 0..(1000 * Len_ * (k + 1))
RootCounts == ~ Running(sim) /\ ~ Shared => N[Root(P)].n = starts
HorizonRespected == Running(sim) => Len(sim.path) <= Len_ \/ Kind = "htm"
Terminates == ~ Running(sim) \/ ~ Reached(sim.hz)
=============================================================================
