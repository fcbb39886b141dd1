------------------------------ MODULE TaskWalk ------------------------------
(***************************************************************************)
(* Successive leaves of a task tree (without parallel nodes), with the     *)
(* probabilities of moving from one to the next when alternatives are      *)
(* chosen uniformly.  Leaves are designated by their path in the tree.     *)
(***************************************************************************)
EXTENDS TaskTrees

End == <<0>>   \* what comes after the last leaf

RECURSIVE LeafPaths(_)
LeafPaths(t) ==
    IF t.k = "Leaf" THEN << <<>> >>
    ELSE LET F[i \in 0..Len(t.kids)] ==
               IF i = 0 THEN <<>>
               ELSE LET L == LeafPaths(t.kids[i])
                    IN F[i - 1] \o [j \in 1..Len(L) |-> <<i>> \o L[j]]
         IN F[Len(t.kids)]

\* First leaves with their probabilities: function from paths to rationals.
RECURSIVE Firsts(_)
Firsts(t) ==
    IF t.k = "Leaf" THEN (<<>> :> ROne)
    ELSE IF t.k = "Sequential" THEN
         LET F == Firsts(t.kids[1]) IN
         [p \in {<<1>> \o q : q \in DOMAIN F} |-> F[Tail(p)]]
    ELSE LET n == Len(t.kids)
             G == [i \in 1..n |-> Firsts(t.kids[i])]
         IN [p \in UNION {{<<i>> \o q : q \in DOMAIN G[i]} : i \in 1..n} |->
               RMul(G[Head(p)][Tail(p)], Rat(1, n))]

\* Leaves that can follow the leaf at p: what follows it in the closest
\* sequence in which it is not last.
RECURSIVE Nexts(_, _)
Nexts(t, p) ==
    IF p = <<>> THEN (End :> ROne)
    ELSE LET q == SubSeq(p, 1, Len(p) - 1)
             i == p[Len(p)]
             par == At(t, q)
         IN IF par.k = "Sequential" /\ i < Len(par.kids)
            THEN LET F == Firsts(par.kids[i + 1])
                     pre == q \o <<i + 1>>
                 IN [x \in {pre \o y : y \in DOMAIN F} |->
                       F[SubSeq(x, Len(pre) + 1, Len(x))]]
            ELSE Nexts(t, q)

\* Whether, in executions with both leaves, that at q comes after that at p.
RECURSIVE After(_, _, _)
After(t, p, q) ==
    IF q = End THEN TRUE
    ELSE IF p = <<>> \/ q = <<>> THEN FALSE
    ELSE IF Head(p) = Head(q) THEN After(t.kids[Head(p)], Tail(p), Tail(q))
    ELSE t.k = "Sequential" /\ Head(p) < Head(q)

\* All expansions of parallel nodes, from the root down.
RECURSIVE Expanded(_, _)
Expanded(t, x) ==  \* x is t with all parallel nodes expanded
    CASE t.k = "Leaf" -> x = t
      [] t.k = "Parallel" ->
           /\ x.k = "Alternative" /\ x.name = t.name
           /\ Len(x.kids) = Fact(Len(t.kids))
           /\ x.pr = UniformP(Fact(Len(t.kids)))
           /\ \A i \in 1..Len(x.kids) : x.kids[i].k = "Sequential"
                                        /\ Len(x.kids[i].kids) = Len(t.kids)
           /\ \A f \in Perms(Len(t.kids)) : \E i \in 1..Len(x.kids) :
                 \A j \in 1..Len(t.kids) :
                    Expanded(CopyTree(t.kids[f[j]], OrderSuffix(i)), x.kids[i].kids[j])
      [] OTHER ->
           /\ x.k = t.k /\ x.name = t.name /\ x.pr = t.pr
           /\ Len(x.kids) = Len(t.kids)
           /\ \A i \in 1..Len(t.kids) : Expanded(t.kids[i], x.kids[i])

\* All walks over the leaves, as sequences of paths.
RECURSIVE WalksFrom(_, _)
WalksFrom(t, p) ==
    IF p = End THEN {<<>>}
    ELSE UNION {{<<p>> \o w : w \in WalksFrom(t, q)} : q \in DOMAIN Nexts(t, p)}
Walks(t) == UNION {WalksFrom(t, p) : p \in DOMAIN Firsts(t)}
=============================================================================
