-------------------------------- MODULE Jobs --------------------------------
(***************************************************************************)
(* Experiments on supportive behaviours: the task, model and policy of a   *)
(* job, from its parameters, and the episodes of the policy in the model.  *)
(* P is a record of parameters: job, task, n, policy, ppref and pchange    *)
(* (rationals), pchangegiven, subrewards.                                  *)
(***************************************************************************)
EXTENDS Supportive
LP == INSTANCE LongPolicy

------------------------------------------------------------------------------
(* Tasks, as sets of executions; steps are [hold, conds (set)]. *)
Label(cls) == [hold |-> Provided(cls).hold, conds |-> {Provided(cls).conds[i] : i \in 1..Len(Provided(cls).conds)}]
Leg == Label("AssembleLeg")
Like(h) == [Leg EXCEPT !.hold = h]
TaskOf(P) ==
    CASE P.job = "preference" -> {<<Leg>>}
      [] P.job = "pomcp" ->
           { <<Leg, Label("AssembleLegToTop-top"), Leg, Label("AssembleLegToTop"),
               Leg, Label("AssembleLegToTop"), Leg, Label("AssembleLegToTop")>> }
      [] P.job = "multitask" /\ P.task = "sequence" -> {[i \in 1..P.n |-> Leg]}
      [] P.job = "multitask" /\ P.task = "uniform" -> {[i \in 1..4 |-> Like(f[i])] : f \in [1..4 -> {"h", "v"}]}
      [] P.job = "multitask" /\ P.task = "alternative" ->
           {[i \in 1..4 |-> Like(f[i])] : f \in {<<"h", "v", "v", "v">>, <<"h", "h", "h", "h">>,
                                                 <<"v", "h", "h", "v">>, <<"v", "v", "h", "v">>}}

(* Probabilities (rationals), rewards and costs (thousandths). *)
Basic == [pfail |-> Rat(1, 100), pall |-> Rat(1, 2), pobj |-> Rat(1, 100), pchange |-> Rat(1, 100),
          ppref |-> <<Rat(3, 10)>>, rsub |-> 10000, rfin |-> 100000, rpref |-> 10000, indep |-> FALSE,
          cget |-> 15000, cintr |-> 1000, chold |-> 2000]
NumbersOf(P) ==
    CASE P.job = "preference" ->
           [Basic EXCEPT !.ppref = <<P.ppref>>, !.indep = TRUE, !.rsub = 10000, !.rpref = 30000, !.rfin = 10000,
                         !.pchange = IF P.pchangegiven THEN P.pchange ELSE RZero, !.pobj = RZero]
      [] P.job = "pomcp" ->
           [Basic EXCEPT !.ppref = <<P.ppref>>, !.rsub = IF P.subrewards THEN 10000 ELSE 0,
                         !.rfin = IF P.subrewards THEN 30000 ELSE 120000,
                         !.pchange = IF P.pchangegiven THEN P.pchange ELSE @]
      [] P.job = "multitask" ->
           LET b == [Basic EXCEPT !.ppref = <<ROne>>, !.pchange = RZero, !.rfin = 10000]
           IN IF P.task = "sequence" THEN b ELSE [b EXCEPT !.chold = 10000, !.rpref = 18000]

Known(P) ==
    CASE P.job = "preference" -> P.policy \in {"pomcp", "always-hold", "never-hold"}
      [] P.job = "pomcp" -> TRUE
      [] P.job = "multitask" -> P.policy \in {"pomcp", "repeat", "random"} /\ P.task \in {"sequence", "uniform", "alternative"}
Planner(P) == P.job = "pomcp" \/ P.policy = "pomcp"
\* What helps in hand-written policies, and for how many subtasks, in a task of some steps.
Nexts(P) == CASE P.policy = "never-hold" -> {LP!Wait}
              [] P.policy = "random" -> {LP!HoldH, LP!HoldV}
              [] OTHER -> {LP!HoldH}
Subtasks(P, steps) == IF P.policy # "random" THEN steps ELSE IF P.task = "sequence" THEN P.n ELSE 4
MaxLength(P) == IF P.job = "preference" THEN 15 ELSE 200
Repetitions(P) == IF P.job = "multitask" THEN 100 ELSE 20  \* unless given

------------------------------------------------------------------------------
(* Possible transitions: all that matters is which probabilities are null. *)
Some(p) == IF p = RZero \/ p = ROne THEN p ELSE Rat(1, 2)
Possible(M) == [M EXCEPT !.pfail = Some(@), !.pall = Some(@), !.pobj = Some(@), !.pchange = Some(@),
                         !.ppref = [i \in 1..Len(@) |-> Some(@[i])]]
ActionOf(a, objects) ==   \* from <<kind, name>>
    CASE a[1] = "wait" -> Kind("wait", 0)
      [] a[1] = "hold" -> Kind(a[2], 0)
      [] a[1] = "ask" -> Kind("ask", 0)
      [] OTHER -> Kind(a[1], CHOOSE i \in 1..Len(objects) : objects[i] = a[2])
Here(M, objects, a) == a[1] \in {"bring", "clear"} => \E i \in 1..Len(objects) : objects[i] = a[2] /\ (a[1] = "clear" => M.clear[i])
CanHappen(M, a, x, y) ==   \* y: [t, o, r]
    \E i \in 1..Len(Outcomes(M, a, x, TRUE)) :
        LET z == Outcomes(M, a, x, TRUE)[i] IN z.t = y.t /\ z.o = y.o /\ z.r = y.r
=============================================================================
