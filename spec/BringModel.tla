----------------------------- MODULE BringModel -----------------------------
(***************************************************************************)
(* The decision model of bringing the object of the next action of a task  *)
(* (without parallel nodes left).  M is a record with                      *)
(*   tree      the task; the act of a leaf is a record [obj],              *)
(*   objects   names of the known objects,                                 *)
(*   com, get, err, end   costs and reward (integers),                     *)
(*   loop, noans          options.                                         *)
(* States are numbers of leaves, 0 being the end; an action is a pair      *)
(* <<"get" or "ask", object>>.                                             *)
(***************************************************************************)
EXTENDS TaskWalk

WithPaths(M) == M @@ [lp |-> LeafPaths(M.tree)]
NLeaves(M) == Len(M.lp)
Idx(M, p) == IF p = End THEN 0 ELSE CHOOSE i \in 1..Len(M.lp) : M.lp[i] = p
Obj(M, i) == At(M.tree, M.lp[i]).act.obj

States(M) == 0..NLeaves(M)
Actions(M) == {"get", "ask"} \X Range(M.objects)

Lift(M, d) == LET D == {<<Idx(M, p), d[p]>> : p \in DOMAIN d}
              IN [s \in {x[1] : x \in D} |-> (CHOOSE x \in D : x[1] = s)[2]]
Start(M) == Lift(M, Firsts(M.tree))
Follow(M, i) == Lift(M, Nexts(M.tree, M.lp[i]))

Trans(M, a, s) ==
    IF s = 0 THEN IF M.loop THEN Start(M) ELSE (0 :> ROne)
    ELSE IF a = <<"get", Obj(M, s)>> THEN Follow(M, s) ELSE (s :> ROne)

Observations == <<"none", "yes", "no", "error">>

\* Distribution of observations when reaching s with a.
Obs(M, a, s) ==
    IF a[1] = "get"
    THEN IF \E i \in 1..NLeaves(M) : Obj(M, i) = a[2] /\ s \in DOMAIN Follow(M, i)
         THEN ("none" :> <<9, 10>>) @@ ("error" :> <<1, 10>>) ELSE ("error" :> ROne)
    ELSE LET ans == IF s # 0 /\ Obj(M, s) = a[2] THEN "yes" ELSE "no"
         IN IF M.noans THEN (ans :> <<9, 10>>) @@ ("none" :> <<1, 10>>) ELSE (ans :> ROne)

Cost(M, a, s, n) ==
    IF s = 0 THEN IF M.loop THEN -M.end
                  ELSE IF n = 0 THEN 0 ELSE IF a[1] = "get" THEN M.err ELSE M.com
    ELSE (IF a[1] = "ask" THEN M.com
          ELSE IF Obj(M, s) = a[2] /\ n \in DOMAIN Follow(M, s) THEN M.get ELSE M.err)
         - (IF ~ M.loop /\ n = 0 THEN M.end ELSE 0)

RTotal(d) == LET F[D \in SUBSET DOMAIN d] ==
                   IF D = {} THEN RZero
                   ELSE LET x == CHOOSE x \in D : TRUE IN RAdd(d[x], F[D \ {x}])
             IN F[DOMAIN d]
=============================================================================
