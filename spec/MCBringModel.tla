---------------------------- MODULE MCBringModel ----------------------------
EXTENDS BringModel

CONSTANTS MaxLeaves

VARIABLES m, st, hist

Leaf(a, o) == [k |-> "Leaf", name |-> a, hi |-> FALSE, act |-> [id |-> a, obj |-> o],
               pr |-> NoProba, kids |-> <<>>]
Node(k, kids) == [k |-> k, name |-> "n", hi |-> FALSE, act |-> "",
    pr |-> IF k = "Alternative" THEN UniformP(Len(kids)) ELSE NoProba, kids |-> kids]
Ks == {"Sequential", "Alternative"}
O2(a) == {Leaf(a, o) : o \in {"x", "y"}}
Subs(as) == O2(as[1]) \cup {Node(k, <<l, n>>) : k \in Ks, l \in O2(as[1]), n \in O2(as[2])}
            \cup (IF Len(as) < 3 THEN {} ELSE
                  {Node(k, <<Leaf(as[1], "x"), Node(l, <<Leaf(as[2], "y"), n>>)>>)
                     : k, l \in Ks, n \in O2(as[3])})
Trees == {Node(k, <<x, y>>) : k \in Ks, x \in Subs(<<"a", "b">>),
             y \in Subs(<<"c", "d">> \o (IF MaxLeaves > 4 THEN <<"e">> ELSE <<>>))}
         \cup {Leaf("a", "x")}

Models == {WithPaths([tree |-> t, objects |-> <<"x", "y", "z">>, com |-> 1, get |-> 2, err |-> 5,
                      end |-> 10, loop |-> l, noans |-> n]) : t \in Trees, l, n \in BOOLEAN}

Init == m \in Models /\ st \in DOMAIN Start(m) /\ hist = <<>>
Next == /\ UNCHANGED m
        /\ \E a \in Actions(m) : \E n \in DOMAIN Trans(m, a, st) :
             /\ st' = n
             /\ hist' = IF st = 0 THEN IF n = 0 THEN hist ELSE <<>>
                        ELSE IF a = <<"get", Obj(m, st)>>
                        THEN Append(hist, At(m.tree, m.lp[st]).act) ELSE hist
Spec == Init /\ [][Next]_<<m, st, hist>>

RowsSum == \A a \in Actions(m) : RTotal(Trans(m, a, st)) = ROne /\ RTotal(Obs(m, a, st)) = ROne
FollowsTask == st = 0 => hist \in Executions(m.tree)
\* Getting the object of the current leaf is the only way out.
OnlyWayOut == st # 0 => \A a \in Actions(m) :
    (st \notin DOMAIN Trans(m, a, st)) <=> a = <<"get", Obj(m, st)>>
Truth == \A o \in Range(m.objects) :
    "yes" \in DOMAIN Obs(m, <<"ask", o>>, st) <=> (st # 0 /\ Obj(m, st) = o)
Paid == \A a \in Actions(m) : \A n \in DOMAIN Trans(m, a, st) :
    Cost(m, a, st, n) < 0 <=> (IF m.loop THEN st = 0 ELSE st # 0 /\ n = 0)
=============================================================================
