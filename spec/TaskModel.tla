------------------------------ MODULE TaskModel ------------------------------
(***************************************************************************)
(* The decision model made from a task (without parallel nodes left).      *)
(* M is a record with                                                      *)
(*   tree       the task tree; the act of each leaf is a record            *)
(*              [th, tr, te, fail, no] of durations and probabilities,     *)
(*   wait, ask, tell, intr, end, sub     durations, costs and rewards,     *)
(*   det, struct, loop, rs, hassub       options of the conversion,        *)
(*   exp(d, th) probability (times S) that the human is not finished.      *)
(* Costs are integers; probabilities are scaled by S.                      *)
(* A state is <<i, phase>>, an action <<i, kind>>, for the leaf number i.  *)
(***************************************************************************)
EXTENDS TaskWalk

S == 1000000

Scale(x, r) == (x * r[1] + (r[2] \div 2)) \div r[2]
P(r) == Scale(S, r)

\* With paths of leaves computed once.
WithPaths(M) == M @@ [lp |-> LeafPaths(M.tree)]
NLeaves(M) == Len(M.lp)
Idx(M, p) == CHOOSE i \in 1..Len(M.lp) : M.lp[i] = p
Act(M, i) == At(M.tree, M.lp[i]).act

EndState == <<0, "end">>
EndReward == <<0, "end-reward">>
Goal(M) == IF M.rs THEN EndReward ELSE EndState
Wait == <<0, "wait">>

States(M) == {<<i, ph>> : i \in 1..NLeaves(M), ph \in {"init", "H", "R"}}
             \cup {EndState} \cup (IF M.rs THEN {EndReward} ELSE {})
Actions(M) == {Wait} \cup {<<i, k>> : i \in 1..NLeaves(M), k \in {"phy", "ai", "ti", "af"}}

StateOf(M, p) == IF p = End THEN Goal(M) ELSE <<Idx(M, p), "init">>
\* Distribution (rationals) over states from one over paths.
Lift(M, d) == LET D == {<<StateOf(M, p), d[p]>> : p \in DOMAIN d}
              IN [s \in {x[1] : x \in D} |-> (CHOOSE x \in D : x[1] = s)[2]]
Start(M) == Lift(M, Firsts(M.tree))
Success(M, i) == Lift(M, Nexts(M.tree, M.lp[i]))

Scaled(d, x) == [s \in DOMAIN d |-> Scale(x, d[s])]

Duration(M, a) == CASE a[2] = "wait" -> M.wait
                    [] a[2] = "phy" -> Act(M, a[1]).te
                    [] a[2] \in {"ai", "af"} -> M.ask
                    [] a[2] = "ti" -> M.tell

Trans(M, a, s) ==
    LET i == s[1] IN
    CASE s = EndReward -> (EndState :> S)
      [] s = EndState -> IF M.loop THEN Scaled(Start(M), S) ELSE (EndState :> S)
      [] s[2] = "init" ->
           IF a = <<i, "ai">>
           THEN (<<i, "R">> :> P(Act(M, i).no)) @@ (<<i, "H">> :> S - P(Act(M, i).no))
           ELSE IF a = <<i, "ti">> THEN (<<i, "R">> :> S) ELSE (s :> S)
      [] s[2] = "H" ->
           IF M.det THEN IF a = <<i, "af">> THEN Scaled(Success(M, i), S) ELSE (s :> S)
           ELSE LET e == M.exp[<<Duration(M, a), Act(M, i).th>>]
                IN (s :> e) @@ Scaled(Success(M, i), S - e)
      [] s[2] = "R" ->
           IF a = <<i, "phy">>
           THEN (s :> P(Act(M, i).fail)) @@ Scaled(Success(M, i), S - P(Act(M, i).fail))
           ELSE (s :> S)

Observations(M) == <<"none", "yes", "no", "error">>
                   \o (IF M.loop \/ M.rs THEN <<"done">> ELSE <<>>)

IsAfter(M, i, s) == s[1] = 0 \/ (s[1] # i /\ After(M.tree, M.lp[i], M.lp[s[1]]))

\* What is observed when reaching s with a.
Obs(M, a, s) ==
    LET i == a[1] IN
    IF M.rs /\ s = EndReward THEN "done"
    ELSE IF M.rs /\ s = EndState THEN "none"
    ELSE IF M.loop /\ s = EndState THEN "done"
    ELSE CASE a[2] = "wait" -> "none"
      [] a[2] = "phy" -> IF s \in DOMAIN Success(M, i) THEN "none" ELSE "error"
      [] a[2] = "ai" -> IF s = <<i, "H">> THEN "yes" ELSE IF s = <<i, "R">> THEN "no"
                        ELSE IF M.struct THEN "error" ELSE "none"
      [] a[2] = "ti" -> IF M.struct /\ s # <<i, "R">> THEN "error" ELSE "none"
      [] a[2] = "af" ->
           IF M.det THEN IF s = <<i, "H">> THEN "no"
                         ELSE IF s \in DOMAIN Success(M, i) THEN "yes" ELSE "error"
           ELSE IF IsAfter(M, i, s) THEN "yes" ELSE "no"

\* Costs.  Ill-timed intentions in structured models are left out, except in
\* the states of the leaf.
CostDefined(M, a, s) == ~ (M.struct /\ a[2] = "ti" /\ s[1] # 0 /\ s[1] # a[1])
IllTimed == 100000
Cost(M, a, s, n) ==
    IF s = EndReward THEN IF a = Wait THEN -M.end ELSE M.intr
    ELSE IF s = EndState
    THEN IF a = Wait THEN IF M.rs THEN 0 ELSE -M.end ELSE M.intr
    ELSE LET i == s[1]
             c == IF a = <<i, "phy">> /\ s[2] = "R" THEN Act(M, i).tr + M.intr
                  ELSE IF M.struct /\ a[2] = "ti"
                  THEN IF s[2] = "init" /\ n \in {<<i, "H">>, <<i, "R">>}
                       THEN M.tell + M.intr ELSE IllTimed
                  ELSE Duration(M, a) + (IF a = Wait THEN 0 ELSE M.intr)
         IN c - (IF M.hassub /\ n[1] # i THEN M.sub ELSE 0)

Total(d) == LET F[D \in SUBSET DOMAIN d] ==
                  IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN d[x] + F[D \ {x}]
            IN F[DOMAIN d]
=============================================================================
