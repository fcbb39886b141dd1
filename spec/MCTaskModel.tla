---------------------------- MODULE MCTaskModel ----------------------------
(* Walks through the models of all small trees, with all options.           *)
EXTENDS TaskModel

CONSTANTS MaxLeaves

VARIABLES m, st, hist

Leaf(a) == [k |-> "Leaf", name |-> a, hi |-> FALSE,
            act |-> [id |-> a, th |-> 2, tr |-> 3, te |-> 5, fail |-> <<1, 10>>, no |-> <<1, 4>>],
            pr |-> NoProba, kids |-> <<>>]
Node(k, kids) == [k |-> k, name |-> "n", hi |-> FALSE, act |-> "",
    pr |-> IF k = "Alternative" THEN UniformP(Len(kids)) ELSE NoProba, kids |-> kids]
Ks == {"Sequential", "Alternative"}
Subs(as) == {Leaf(as[1])} \cup {Node(k, [i \in 1..Len(as) |-> Leaf(as[i])]) : k \in Ks}
            \cup (IF Len(as) < 3 THEN {} ELSE
                  {Node(k, <<Leaf(as[1]), Node(l, <<Leaf(as[2]), Leaf(as[3])>>)>>) : k, l \in Ks})
Trees == {Node(k, <<x, y>>) : k \in Ks, x \in Subs(<<"a", "b">>),
             y \in Subs(<<"c", "d">> \o (IF MaxLeaves > 4 THEN <<"e">> ELSE <<>>))}
         \cup {Leaf("a")}

Models == {WithPaths([tree |-> t, wait |-> 1, ask |-> 2, tell |-> 3, intr |-> 1, end |-> 10,
              sub |-> 5, det |-> det, struct |-> FALSE, loop |-> loop, rs |-> rs, hassub |-> FALSE,
              exp |-> [x \in {1, 2, 3, 5} \X {2} |-> 300001]])
           : t \in Trees, det, loop, rs \in BOOLEAN}

Acts(w) == [i \in 1..Len(w) |-> w[i]]

ASSUME \A t \in Trees :
    /\ {[i \in 1..Len(w) |-> At(t, w[i]).act] : w \in Walks(t)} = Executions(t)
    \* what may be before or after is what is in walks
    /\ \A i, j \in 1..Len(LeafPaths(t)) : i # j =>
         (After(t, LeafPaths(t)[i], LeafPaths(t)[j]) <=>
            \E w \in Walks(t) : \E x, y \in 1..Len(w) : x < y /\ w[x] = LeafPaths(t)[i]
                                                        /\ w[y] = LeafPaths(t)[j])

Init == /\ m \in Models
        /\ st \in DOMAIN Start(m)
        /\ hist = <<>>
Next ==
    /\ UNCHANGED m
    /\ \E a \in Actions(m), n \in States(m) :
          /\ n \in DOMAIN Trans(m, a, st)
          /\ Trans(m, a, st)[n] > 0
          /\ st' = n
          /\ hist' = IF st[1] # 0 /\ n[1] # st[1] THEN Append(hist, Act(m, st[1]))
                     ELSE IF st[1] = 0 /\ n[1] # 0 THEN <<>> ELSE hist
Spec == Init /\ [][Next]_<<m, st, hist>>

RowsSum == \A a \in Actions(m) :
    LET d == Trans(m, a, st) IN
    /\ DOMAIN d \subseteq States(m)
    /\ \A s \in DOMAIN d : d[s] >= 0
    /\ Total(d) \in (S - 4)..(S + 4)
StartSums == Total(Scaled(Start(m), S)) \in (S - 4)..(S + 4)
\* Leaves that were gone through make up an execution of the task.
FollowsTask == st[1] = 0 => hist \in Executions(m.tree)
\* Being told that a leaf is finished: always when it was, never when it may come.
Truth == ~ m.det /\ st[1] # 0 /\ ~ m.rs /\ ~ m.loop =>
    \A j \in 1..NLeaves(m) \ {st[1]} :
       LET told == Obs(m, <<j, "af">>, st) = "yes" IN
       /\ (\E i \in 1..Len(hist) : hist[i] = Act(m, j)) => told
       /\ told => \A w \in WalksFrom(m.tree, m.lp[st[1]]) :
                    \A i \in 1..Len(w) : w[i] # m.lp[j]
=============================================================================
