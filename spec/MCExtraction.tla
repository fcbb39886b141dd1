---------------------------- MODULE MCExtraction ----------------------------
(* Extraction from all executions of every small extractable task, whatever *)
(* the chains and cliques that are chosen.                                   *)
EXTENDS Extraction

CONSTANTS MaxLeaves

VARIABLE task

NodeOf(kind, kids) == [k |-> kind, act |-> "", kids |-> kids]
LeafOf(i) == [k |-> "Leaf", act |-> "a" \o ToString(i), kids |-> <<>>]
Kinds == {"Sequential", "Parallel"}

\* Tasks with leaves i..j which are not of kind excl; lists of at least two
\* tasks which are not of kind k.
RECURSIVE TasksOf(_, _, _)
RECURSIVE Lists(_, _, _)
TasksOf(i, j, excl) ==
    IF i = j THEN {LeafOf(i)}
    ELSE UNION {{NodeOf(k, f) : f \in Lists(i, j, k)} : k \in Kinds \ {excl}}
Lists(i, j, k) ==
    UNION {UNION {{<<t, u>> : u \in TasksOf(m + 1, j, k)}
                  \cup (IF m + 1 = j THEN {}
                        ELSE {<<t>> \o f : f \in Lists(m + 1, j, k)})
                  : t \in TasksOf(i, m, k)}
           : m \in i..(j - 1)}

All == {t \in UNION {TasksOf(1, n, "") : n \in 1..MaxLeaves} : Extractable(t)}

Start(t) == LET gr == DemoAll(EmptyTask, Executions(t)) IN
            /\ g = gr /\ c = ConjOf(gr) /\ meta = NoMeta /\ task = t

Init == \E t \in All : Start(t)

NewName == "M" \o ToString(Cardinality(DOMAIN meta) + 1)

RECURSIVE AnyOrder(_)
AnyOrder(X) == IF X = {} THEN <<>>
               ELSE LET x == CHOOSE y \in X : TRUE IN <<x>> \o AnyOrder(X \ {x})

Next == /\ UNCHANGED task
        /\ \/ \E ch \in MaxChains(c) : Sequence(ch, NewName)
           \/ \E q \in MaxCliques(c) : ParallelStep(AnyOrder(q), NewName)

vars == <<g, c, meta, task>>
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
Recovered ==
    Over => /\ Single
            /\ Executions(Extracted) = WithEnds(Executions(task))

\* Each step merges at least two nodes.
Progress == [][Cardinality(Nodes(c'.trans)) < Cardinality(Nodes(c.trans))]_vars

\* Nodes are never lost: all actions are in exactly one node.
RECURSIVE Under(_)
Under(t) == IF t.k = "Leaf" THEN {t.act}
            ELSE UNION {Under(t.kids[i]) : i \in 1..Len(t.kids)}
Kept == LET V == Nodes(c.trans) \cup {c.init, c.term} IN
        /\ UNION {Under(TaskOf(meta, x)) : x \in V} = Under(task) \cup {"I", "T"}
        /\ \A x, y \in V : x # y =>
              Under(TaskOf(meta, x)) \cap Under(TaskOf(meta, y)) = {}
=============================================================================
