----------------------------- MODULE MCTaskGraph -----------------------------
(* Exhaustive exploration of task graphs with few states and actions.       *)
EXTENDS TaskGraph, TLC

CONSTANTS S, A, MaxMeta, MaxTrans

VARIABLE n   \* number of compactions done

St(x) == x \in S
Ac(x) == x \in A
Ex(a, s, s1) == ~ (a = "a1" /\ s = "s3")   \* some action has a pre-condition

Metas == {"M1", "M2"}
Paths1 == {<<s>> : s \in S}
Paths3 == {<<s, a, s1>> : s \in S, a \in A, s1 \in S}
Paths5 == {<<s, a, s1, b, s2>> : s \in S, a \in A, s1 \in S, b \in A, s2 \in S}
Valid(p) == ValidPath(p, St, Ac, Ex)

Init == TGInit /\ n = 0
Next ==
    \/ \E p \in Paths1 \cup Paths3 \cup Paths5 :
          /\ n = 0 /\ c.trans = {} /\ Valid(p) /\ AddPath(p) /\ UNCHANGED n
    \/ n = 0 /\ c.trans = {} /\ Conjugate /\ UNCHANGED n
    \/ \E N \in SUBSET Nodes(c.trans) :
          /\ n < MaxMeta /\ Cardinality(N) >= 2
          /\ Compact(N, IF n = 0 THEN "M1" ELSE "M2") /\ n' = n + 1

Small == Cardinality(g.trans) <= MaxTrans

vars == <<g, c, n>>
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
TypeOK == /\ g.trans \subseteq S \X A \X S
          /\ g.init \subseteq S /\ g.term \subseteq S

\* All transitions of the graph are explained by their action.
OnlyExplained == \A x \in g.trans : Ex(x[2], x[1], x[3])

\* What was demonstrated is accepted from then on.
AddedIsAccepted ==
    [][\A p \in Paths1 \cup Paths3 \cup Paths5 :
          HasPath(g, p) => HasPath(g', p)]_vars

\* Every execution that stops as soon as it can is a walk of the conjugate.
WalkOf(tr, w) == \A i \in 1..Len(w) : w[i] \in tr
ExecutionsAreWalks ==
    (c.trans # {} /\ n = 0) =>
    /\ \A p \in Paths3 : HasPath(g, p) =>
          WalkOf(c.trans, <<<<"I", p[1], p[2]>>, <<p[2], p[3], "T">>>>)
    /\ \A p \in Paths5 : HasPath(g, p) /\ p[3] \notin g.term =>
          WalkOf(c.trans, <<<<"I", p[1], p[2]>>, <<p[2], p[3], p[4]>>,
                            <<p[4], p[5], "T">>>>)

\* No arc of the conjugate comes from nowhere.
ConjSound ==
    (n = 0) => \A x \in c.trans :
       /\ x[1] # "T" /\ x[3] # "I"
       /\ x[1] = "I" => \E s \in S : <<x[2], x[3], s>> \in g.trans
       /\ x[3] = "T" => \E s \in S : <<s, x[1], x[2]>> \in g.trans
       /\ x[2] \in g.term <=> (x[3] = "T" \/ (x[1] = "I" /\ x[2] \in g.term))

ChainsDisjoint ==
    LET m == MaxChains(c) IN
    /\ \A x \in m : /\ Len(x) > 1
                    /\ \A i, j \in 1..Len(x) : x[i] = x[j] => i = j
    /\ \A x, y \in m : x # y =>
          {x[i] : i \in 1..Len(x)} \cap {y[i] : i \in 1..Len(y)} = {}

ChainsCover ==
    LET E == Edges(c.trans)
        m == MaxChains(c)
    IN \A u, v \in ReachFrom(E, {c.init}) : Link(E, c.init, u, v) =>
          \E x \in m : \E i \in 1..(Len(x) - 1) : x[i] = u /\ x[i + 1] = v

CliquesCover ==
    LET E == Edges(c.trans)
        m == MaxCliques(c)
    IN /\ \A u, v \in Nodes(c.trans) : Mutual(E, u, v) =>
             \E q \in m : u \in q /\ v \in q
       /\ \A q, r \in m : q \subseteq r => q = r

CompactPreserves ==
    [][c.trans # {} /\ c' # c =>
        /\ \A x \in c.trans :
              x[1] \in Nodes(c'.trans) /\ x[3] \in Nodes(c'.trans)
                 => x \in c'.trans
        /\ \A x \in c'.trans : \/ x \in c.trans
                                \/ (x[2] = "" /\ (x[1] \in Metas \/ x[3] \in Metas))
        /\ (c'.init = c.init \/ c'.init \in Metas)
        /\ \A x \in Nodes(c'.trans) : (x \in Nodes(c.trans) \/ x \in Metas)]_vars
=============================================================================
