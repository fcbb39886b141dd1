------------------------------ MODULE TaskTrees -----------------------------
(***************************************************************************)
(* Hierarchical tasks.  A node is a record                                 *)
(*   [k, name, hi, act, pr, kids]                                          *)
(* where k is "Leaf", "Sequential", "Alternative" or "Parallel", hi tells  *)
(* whether it is highlighted, act describes the action of a leaf (class    *)
(* and attributes), pr holds the probabilities of an alternative.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Rational, TLC

Range(s) == {s[i] : i \in 1..Len(s)}
Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : f[i] = f[j] => i = j}

RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)

UniformP(n) == [i \in 1..n |-> Rat(1, n)]
NoProba == <<>>

------------------------------------------------------------------------------
(* Executions: sequences of actions of leaves.                               *)

RECURSIVE ConcatAll(_)
ConcatAll(L) ==   \* all concatenations of one element of each set of L
    IF L = <<>> THEN {<<>>}
    ELSE {p[1] \o p[2] : p \in L[1] \X ConcatAll(Tail(L))}

RECURSIVE Executions(_)
Executions(t) ==
    IF t.k = "Leaf" THEN {<<t.act>>}
    ELSE LET E == [i \in 1..Len(t.kids) |-> Executions(t.kids[i])] IN
         CASE t.k = "Sequential"  -> ConcatAll(E)
           [] t.k = "Alternative" -> UNION {E[i] : i \in 1..Len(E)}
           [] t.k = "Parallel"    ->
                UNION {ConcatAll([i \in 1..Len(E) |-> E[f[i]]]) : f \in Perms(Len(E))}

RECURSIVE LeafNames(_)
LeafNames(t) == IF t.k = "Leaf" THEN <<t.name>>
                ELSE LET F[i \in 0..Len(t.kids)] ==
                           IF i = 0 THEN <<>> ELSE F[i - 1] \o LeafNames(t.kids[i])
                     IN F[Len(t.kids)]
Unique(s) == Cardinality(Range(s)) = Len(s)

------------------------------------------------------------------------------
(* Copies and expansion. *)

RECURSIVE CopyTree(_, _)
CopyTree(t, suffix) ==
    [t EXCEPT !.name = @ \o suffix,
              !.kids = [i \in 1..Len(t.kids) |-> CopyTree(t.kids[i], suffix)]]

OrderSuffix(i) == " order-" \o ToString(i - 1)

OrderSeq(t, i, f) ==
    [k |-> "Sequential", name |-> t.name \o OrderSuffix(i), hi |-> FALSE,
     act |-> "", pr |-> NoProba,
     kids |-> [j \in 1..Len(t.kids) |-> CopyTree(t.kids[f[j]], OrderSuffix(i))]]

\* x is an expansion of the parallel node t: each order exactly once.
IsExpansion(t, x) ==
    LET n == Len(t.kids) IN
    /\ x.k = "Alternative" /\ x.name = t.name /\ x.hi = t.hi
    /\ Len(x.kids) = Fact(n)
    /\ x.pr = UniformP(Fact(n))
    \* P: all orders; C: children that explain each element of each sequence; M: orders that
    \* explain each sequence (bound, as definitions would be evaluated again and again).
    /\ \E P \in {TLCEval(Perms(n))} :
       \E C \in {TLCEval([i \in 1..Len(x.kids) |->
                   IF /\ Len(x.kids[i].kids) = n
                      /\ [x.kids[i] EXCEPT !.kids = <<>>] = OrderSeq([t EXCEPT !.kids = <<>>], i, <<>>)
                   THEN [j \in 1..n |-> {k \in 1..n : x.kids[i].kids[j] = CopyTree(t.kids[k], OrderSuffix(i))}]
                   ELSE [j \in 1..n |-> {}]])} :
       \E M \in {TLCEval([i \in 1..Len(x.kids) |-> {f \in P : \A j \in 1..n : f[j] \in C[i][j]}])} :
          /\ \A i \in 1..Len(x.kids) : M[i] # {}
          /\ P = UNION {M[i] : i \in 1..Len(x.kids)}

\* One expansion (lexicographic orders are not required).
ExpandWith(t, ord) ==
    [k |-> "Alternative", name |-> t.name, hi |-> t.hi, act |-> "",
     pr |-> UniformP(Len(ord)),
     kids |-> [i \in 1..Len(ord) |-> OrderSeq(t, i, ord[i])]]

------------------------------------------------------------------------------
(* Probabilities of alternatives. *)

ValidProba(p) ==
    /\ \A i \in 1..Len(p) : RLe(RZero, p[i]) /\ RLe(p[i], ROne)
    /\ RSum(p) = ROne

------------------------------------------------------------------------------
(* Access by path (sequence of positions). *)

RECURSIVE At(_, _)
At(t, p) == IF p = <<>> THEN t ELSE At(t.kids[Head(p)], Tail(p))
RECURSIVE Replace(_, _, _)
Replace(t, p, x) == IF p = <<>> THEN x
    ELSE [t EXCEPT !.kids[Head(p)] = Replace(@, Tail(p), x)]
RECURSIVE PathsOf(_)
PathsOf(t) == {<<>>} \cup
    UNION {{<<i>> \o p : p \in PathsOf(t.kids[i])} : i \in 1..Len(t.kids)}

------------------------------------------------------------------------------
(* Prefix order: sequence of the nodes, each with parent's position.         *)

RECURSIVE Flatten(_, _, _)
Flatten(t, id, parent) ==   \* nodes of t numbered from id
    LET F[i \in 0..Len(t.kids)] ==
          IF i = 0 THEN <<[id |-> id, parent |-> parent, node |-> t]>>
          ELSE F[i - 1] \o Flatten(t.kids[i], id + Len(F[i - 1]), id)
    IN F[Len(t.kids)]

=============================================================================
