----------------------------- MODULE Extraction -----------------------------
(***************************************************************************)
(* Extraction of a hierarchical task from demonstrations: starting from    *)
(* the conjugate of the demonstrated graph, chains are compacted into      *)
(* sequences and, when there is none, cliques into parallel nodes, until   *)
(* nothing is left to compact.                                             *)
(*                                                                         *)
(* meta gives, for each node that was created, its kind and the nodes it   *)
(* stands for.                                                             *)
(***************************************************************************)
EXTENDS TaskGraph, TaskTrees

VARIABLE meta

evars == <<g, c, meta>>

NoMeta == [x \in {} |-> [kind |-> "", acts |-> <<>>]]

------------------------------------------------------------------------------
(* Demonstration of an execution from the initial state: states are the     *)
(* histories of what was done.                                              *)

RECURSIVE History(_)
History(e) == IF e = <<>> THEN "h"
              ELSE History(SubSeq(e, 1, Len(e) - 1)) \o ":" \o e[Len(e)]

Demo(e) == [i \in 1..(2 * Len(e) + 1) |->
              IF i % 2 = 0 THEN e[i \div 2]
              ELSE History(SubSeq(e, 1, (i - 1) \div 2))]

RECURSIVE DemoAll(_, _)
DemoAll(gr, es) ==
    IF es = {} THEN gr
    ELSE LET e == CHOOSE x \in es : TRUE
         IN DemoAll(WithPath(gr, Demo(e)), es \ {e})

------------------------------------------------------------------------------
(* Task that a node stands for. *)

Combi(kind) == IF kind = "sequence" THEN "Sequential" ELSE "Parallel"

RECURSIVE TaskOf(_, _)
TaskOf(m, x) ==
    IF x \in DOMAIN m
    THEN [k |-> Combi(m[x].kind), act |-> "",
          kids |-> [i \in 1..Len(m[x].acts) |-> TaskOf(m, m[x].acts[i])]]
    ELSE [k |-> "Leaf", act |-> x, kids |-> <<>>]

------------------------------------------------------------------------------
(* Steps.  A node stands for the elements of a chain in their order and for *)
(* those of a clique in any order.                                          *)

Replaced(kind, acts, new) ==
    /\ meta' = meta @@ (new :> [kind |-> kind, acts |-> acts])
    /\ Compact(Range(acts), new)

Sequence(ch, new) == /\ ch \in MaxChains(c)
                     /\ Replaced("sequence", ch, new)

ParallelStep(acts, new) == /\ MaxChains(c) = {}
                           /\ Range(acts) \in MaxCliques(c) /\ Unique(acts)
                           /\ Replaced("parallel", acts, new)

Over == MaxChains(c) = {} /\ MaxCliques(c) = {}

\* Everything is compacted into one node.
Single == c.trans = {} /\ c.init = c.term

Extracted == TaskOf(meta, c.init)

WithEnds(es) == {<<"I">> \o e \o <<"T">> : e \in es}

------------------------------------------------------------------------------
(* Tasks that can be extracted: sequences and parallels of distinct         *)
(* actions, where siblings of a parallel node are reduced at the same time. *)

RECURSIVE HasParallel(_)
HasParallel(t) == \/ t.k = "Parallel"
                  \/ \E i \in 1..Len(t.kids) : HasParallel(t.kids[i])

RECURSIVE Extractable(_)
Extractable(t) ==
    CASE t.k = "Leaf" -> TRUE
      [] t.k = "Sequential" -> \A i \in 1..Len(t.kids) : Extractable(t.kids[i])
      [] t.k = "Parallel" ->
            /\ \A i \in 1..Len(t.kids) : Extractable(t.kids[i])
                                          /\ t.kids[i].k # "Parallel"
            /\ Len(t.kids) >= 2
            /\ \/ Len(t.kids) = 2
               \/ \A i \in 1..Len(t.kids) : ~ HasParallel(t.kids[i])
      [] OTHER -> FALSE
=============================================================================
