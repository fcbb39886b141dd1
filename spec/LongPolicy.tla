----------------------------- MODULE LongPolicy -----------------------------
(***************************************************************************)
(* The hand-written policy for tasks with subtasks that need a leg and     *)
(* help: a state is [bring, clear (objects left), leg, done, last].        *)
(* Actions are <<kind, object>>; one of nexts is taken to help, or to wait *)
(* for, each subtask.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Tools == {"screws", "screwdriver", "joints"}
None == <<"none", "">>
Begin == [bring |-> Tools, clear |-> Tools, leg |-> TRUE, done |-> 0, last |-> None]
Wait == <<"wait", "">>
HoldH == <<"hold", "H">>
HoldV == <<"hold", "V">>
\* Actions that may be chosen, for a task with n subtasks.
Chosen(p, n, nexts) ==
    IF p.bring # {} THEN {<<"bring", o>> : o \in p.bring}
    ELSE IF p.done < n THEN IF p.leg THEN {<<"bring", "leg">>} ELSE nexts
    ELSE IF p.clear # {} THEN {<<"clear", o>> : o \in p.clear}
    ELSE {Wait}
\* What an observation means for the last action.
Meaning(p, obs, nexts) ==
    IF obs = "fail" THEN "failure"
    ELSE IF obs = "none" \/ (obs = "not-found" /\ p.last \notin nexts \ {Wait}) THEN "success"
    ELSE "unexpected"
After(p, obs, nexts) ==
    IF Meaning(p, obs, nexts) # "success" THEN p
    ELSE CASE p.last[1] = "bring" /\ p.last[2] \in Tools -> [p EXCEPT !.bring = @ \ {p.last[2]}]
           [] p.last = <<"bring", "leg">> -> [p EXCEPT !.leg = FALSE]
           [] p.last \in nexts /\ obs = "none" -> [p EXCEPT !.done = @ + 1, !.leg = TRUE]
           [] p.last[1] = "clear" -> [p EXCEPT !.clear = @ \ {p.last[2]}]
           [] OTHER -> p
=============================================================================
