----------------------------- MODULE MCTaskTree -----------------------------
(* All small trees, expanded in all manners.                                 *)
EXTENDS TaskTree

CONSTANTS Kinds, MaxKids

VARIABLES t0, steps

Leaf(a) == [k |-> "Leaf", name |-> a, hi |-> FALSE, act |-> a, pr |-> NoProba, kids |-> <<>>]
Node(k, name, hi, kids) == [k |-> k, name |-> name, hi |-> hi, act |-> "",
    pr |-> IF k = "Alternative" THEN UniformP(Len(kids)) ELSE NoProba, kids |-> kids]

\* Depth one nodes over given leaves, and trees of depth two.
Subs(as, nm) == {Leaf(as[1])} \cup
    {Node(k, nm, FALSE, [i \in 1..n |-> Leaf(as[i])]) : k \in Kinds, n \in 2..Len(as)}
Trees == {Node(k, "r", h, <<x, y>>) : k \in Kinds, h \in BOOLEAN,
             x \in Subs(<<"a", "b", "c">>, "m"), y \in Subs(<<"d", "e">>, "n")}
         \cup (IF MaxKids < 3 THEN {} ELSE
               {Node(k, "r", FALSE, <<x, y, z>>) : k \in Kinds,
                  x \in Subs(<<"a", "b">>, "m"), y \in Subs(<<"d", "e">>, "n"), z \in {Leaf("f")}})

Orders(n) == IF n = 1 THEN <<<<1>>>>
             ELSE IF n = 2 THEN <<<<1, 2>>, <<2, 1>>>>
             ELSE <<<<3, 2, 1>>, <<1, 2, 3>>, <<2, 1, 3>>, <<1, 3, 2>>, <<3, 1, 2>>, <<2, 3, 1>>>>

Init == t0 \in Trees /\ tree = t0 /\ steps = 0
Next ==
    /\ steps < 3 /\ UNCHANGED t0
    /\ \/ \E p \in PathsOf(tree) :
             /\ At(tree, p).k = "Parallel"
             /\ \A q \in PathsOf(tree) : At(tree, q).k = "Parallel" => Len(p) <= Len(q)
             /\ ExpandAt(p, ExpandWith(At(tree, p), Orders(Len(At(tree, p).kids))))
             /\ steps' = steps + 1
       \/ \E p \in PathsOf(tree) : steps = 0 /\ CopyAt(p, "'") /\ steps' = 3
Spec == Init /\ [][Next]_<<tree, t0, steps>>

SameExecutions == Executions(tree) = Executions(t0)
NamesUnique == Unique(LeafNames(tree))
IdsPrefix ==
    LET F == Flatten(t0, 0, -1) IN
    /\ \A i \in 1..Len(F) : F[i].id = i - 1 /\ F[i].parent < F[i].id
    /\ Len(F) = Cardinality(PathsOf(t0))
ProbaValid == \A p \in PathsOf(tree) :
    At(tree, p).k = "Alternative" => ValidProba(At(tree, p).pr)
=============================================================================
