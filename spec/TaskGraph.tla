------------------------------ MODULE TaskGraph ------------------------------
(***************************************************************************)
(* Task graphs, their conjugates and the structures extracted from them.   *)
(*                                                                         *)
(* A task graph records the transitions <<s, a, s'>> of demonstrated       *)
(* executions with the states where these started and stopped.  Its        *)
(* conjugate has actions as nodes and states as labels, plus two special   *)
(* nodes "I" (initial) and "T" (terminal).  Any graph can be compacted.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES g,   \* task graph: [trans, init, term]
          c    \* conjugate (or any labelled graph): [trans, init, term]

gvars == <<g, c>>

EmptyTask == [trans |-> {}, init |-> {}, term |-> {}]
EmptyConj == [trans |-> {}, init |-> "I", term |-> "T"]

------------------------------------------------------------------------------
(* Paths.  IsState(x), IsAction(x) and Explains(a, s, s1) are parameters.  *)

Triples(p) == [i \in 1..((Len(p) - 1) \div 2) |->
                  <<p[2*i - 1], p[2*i], p[2*i + 1]>>]
TripleSet(p) == {Triples(p)[i] : i \in 1..Len(Triples(p))}

ValidPath(p, IsState(_), IsAction(_), Explains(_, _, _)) ==
    \/ Len(p) = 0
    \/ /\ Len(p) % 2 = 1
       /\ \A i \in 1..Len(p) : IF i % 2 = 1 THEN IsState(p[i])
                                            ELSE IsAction(p[i])
       /\ \A x \in TripleSet(p) : Explains(x[2], x[1], x[3])

HasPath(gr, p) ==
    \/ Len(p) = 0
    \/ /\ p[1] \in gr.init
       /\ p[Len(p)] \in gr.term
       /\ TripleSet(p) \subseteq gr.trans

WithPath(gr, p) ==
    IF Len(p) = 0 THEN gr
    ELSE [trans |-> gr.trans \cup TripleSet(p),
          init  |-> gr.init \cup {p[1]},
          term  |-> gr.term \cup {p[Len(p)]}]

------------------------------------------------------------------------------
(* Conjugate. *)

Deterministic(gr) ==
    \A x, y \in gr.trans : x[1] = y[1] /\ x[2] = y[2] => x[3] = y[3]

ConjTrans(gr) ==
    {<<"I", x[1], x[2]>> : x \in {y \in gr.trans : y[1] \in gr.init}}
    \cup
    {<<x[2], x[3], "T">> : x \in {y \in gr.trans : y[3] \in gr.term}}
    \cup
    {<<xy[1][2], xy[1][3], xy[2][2]>> :
        xy \in {z \in gr.trans \X gr.trans :
                   z[1][3] = z[2][1] /\ z[1][3] \notin gr.term}}

ConjOf(gr) == [trans |-> ConjTrans(gr), init |-> "I", term |-> "T"]

------------------------------------------------------------------------------
(* Structures of a labelled graph with an entry node. *)

Nodes(tr) == {x[1] : x \in tr} \cup {x[3] : x \in tr}
Edges(tr) == {<<x[1], x[3]>> : x \in tr}
Succ(E, u) == {e[2] : e \in {f \in E : f[1] = u}}
Pred(E, u) == {e[1] : e \in {f \in E : f[2] = u}}

RECURSIVE ReachFrom(_, _)
ReachFrom(E, S) == LET N == S \cup {e[2] : e \in {f \in E : f[1] \in S}}
                   IN IF N = S THEN S ELSE ReachFrom(E, N)

\* v always and only follows u; the entry node only follows the beginning.
Link(E, init, u, v) == Succ(E, u) = {v} /\ Pred(E, v) = {u} /\ v # init

NextLink(E, init, u) == {v \in Succ(E, u) : Link(E, init, u, v)}

RECURSIVE ChainFrom(_, _, _)
ChainFrom(E, init, u) ==
    LET n == NextLink(E, init, u) IN
    IF n = {} THEN <<u>>
    ELSE <<u>> \o ChainFrom(E, init, CHOOSE v \in n : TRUE)

MaxChains(gr) ==
    LET E == Edges(gr.trans)
        R == ReachFrom(E, {gr.init})
        heads == {u \in R : NextLink(E, gr.init, u) # {}
                            /\ \A p \in R : u \notin NextLink(E, gr.init, p)}
    IN {ChainFrom(E, gr.init, u) : u \in heads}

Mutual(E, u, v) == u # v /\ <<u, v>> \in E /\ <<v, u>> \in E

IsClique(E, S) == \A u, v \in S : u # v => Mutual(E, u, v)

MaxCliquesOf(V, E) ==
    LET W == {u \in V : \E v \in V : Mutual(E, u, v)}
        cl == {S \in SUBSET W : Cardinality(S) > 1 /\ IsClique(E, S)}
    IN {S \in cl : ~ \E u \in W \ S : \A v \in S : Mutual(E, u, v)}

MaxCliques(gr) == MaxCliquesOf(Nodes(gr.trans), Edges(gr.trans))

------------------------------------------------------------------------------
(* Compaction of nodes N into one node m: labels of redirected edges are    *)
(* erased.                                                                  *)

CompactTrans(tr, N, m) ==
    {x \in tr : x[1] \notin N /\ x[3] \notin N}
    \cup
    {<<IF x[1] \in N THEN m ELSE x[1], "", IF x[3] \in N THEN m ELSE x[3]>> :
        x \in {y \in tr : (y[1] \in N) # (y[3] \in N)}}

CompactConj(gr, N, m) ==
    [trans |-> CompactTrans(gr.trans, N, m),
     init  |-> IF gr.init \in N THEN m ELSE gr.init,
     term  |-> IF gr.term \in N THEN m ELSE gr.term]

------------------------------------------------------------------------------
(* Actions. *)

TGInit == g = EmptyTask /\ c = EmptyConj

AddPath(p)          == g' = WithPath(g, p) /\ UNCHANGED c
AddTransition(x)    == g' = [g EXCEPT !.trans = @ \cup {x}] /\ UNCHANGED c
RemoveTransition(x) == x \in g.trans /\ g' = [g EXCEPT !.trans = @ \ {x}]
                       /\ UNCHANGED c
CompactTask(N, m)   == g' = [g EXCEPT !.trans = CompactTrans(@, N, m)]
                       /\ UNCHANGED c
Conjugate           == Deterministic(g) /\ c' = ConjOf(g) /\ UNCHANGED g
AddConj(x)          == c' = [c EXCEPT !.trans = @ \cup {x}] /\ UNCHANGED g
Compact(N, m)       == c' = CompactConj(c, N, m) /\ UNCHANGED g

=============================================================================
