---------------------------- MODULE PolicyGraph ----------------------------
(***************************************************************************)
(* Policy graphs, the runners that follow them, and the files that hold    *)
(* them.  G is a record [actions, trans, values]: the action of each node, *)
(* its next node for each observation (0: none) and its vector of values.  *)
(***************************************************************************)
EXTENDS Pomdp

Nodes(G) == 1..Len(G.actions)
NObs(G) == Len(G.trans[1])
WellFormed(G) == /\ Len(G.trans) = Len(G.actions) /\ Len(G.values) = Len(G.actions)
                 /\ \A i \in Nodes(G) : Len(G.trans[i]) = NObs(G)
                                       /\ \A o \in 1..NObs(G) : G.trans[i][o] \in 0..Len(G.actions)

BestNodes(G, w) == Best(G.values, w)

------------------------------------------------------------------------------
(* Files of the solver: sequences of lines, each a record with blank (TRUE   *)
(* for blank lines) and its numbers.                                         *)
NonBlank(lines) == SelectSeq(lines, LAMBDA l : ~ l.blank)

\* Value function: actions and vectors, alternately.
AlphaOk(lines) == LET L == NonBlank(lines) IN
    /\ Len(L) > 0 /\ Len(L) % 2 = 0
    /\ \A i \in 1..Len(L) : i % 2 = 1 => Len(L[i].nums) = 1
    /\ \A i, j \in 1..Len(L) : i % 2 = 0 /\ j % 2 = 0 => Len(L[i].nums) = Len(L[j].nums)
AlphaActions(lines) == LET L == NonBlank(lines) IN [i \in 1..(Len(L) \div 2) |-> L[2 * i - 1].nums[1]]
AlphaVectors(lines) == LET L == NonBlank(lines) IN [i \in 1..(Len(L) \div 2) |-> L[2 * i].nums]

\* Policy graph: number, action, and next nodes (-1 for none) of each node.
PgOk(lines) == LET L == NonBlank(lines) IN
    \A i \in 1..Len(L) : Len(L[i].nums) >= 2 /\ L[i].nums[1] = i - 1
PgActions(lines) == LET L == NonBlank(lines) IN [i \in 1..Len(L) |-> L[i].nums[2]]
PgTrans(lines) == LET L == NonBlank(lines) IN
    [i \in 1..Len(L) |-> [j \in 1..(Len(L[i].nums) - 2) |-> L[i].nums[j + 2] + 1]]

\* Both files make up a policy for a model with na actions, no observations, n states.
LoadOk(al, pg, na, no, n) ==
    /\ AlphaOk(al) /\ PgOk(pg)
    /\ AlphaActions(al) = PgActions(pg)
    /\ \A i \in 1..Len(AlphaActions(al)) : AlphaActions(al)[i] \in 0..(na - 1)
    /\ \A i \in 1..Len(AlphaVectors(al)) : Len(AlphaVectors(al)[i]) = n
    /\ \A i \in 1..Len(PgTrans(pg)) : Len(PgTrans(pg)[i]) = no /\
         \A j \in 1..no : PgTrans(pg)[i][j] \in 0..Len(PgTrans(pg))
=============================================================================
