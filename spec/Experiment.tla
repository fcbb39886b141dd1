----------------------------- MODULE Experiment -----------------------------
(***************************************************************************)
(* An experiment: created with parameters that complete or replace default *)
(* ones, then run: initialization of model and policy, warm-up of the      *)
(* policy, evaluations, end, and results written to a file (if it has a    *)
(* path).  It fails as soon as one of these fails, and then writes nothing.*)
(* x is [stage, par (parameters), path, evals (number of results), file].  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* Functions: g completes or replaces f.
Over(f, g) == [k \in DOMAIN f \cup DOMAIN g |-> IF k \in DOMAIN g THEN g[k] ELSE f[k]]

Stages == <<"ready", "started", "initialized", "warm", "evaluated", "finished", "done">>
NoFile == [is |-> FALSE]
NewExperiment(defaults, given) ==
    [stage |-> "ready", par |-> Over(defaults, given), path |-> FALSE, evals |-> 0, file |-> NoFile]
WithPath(x, file) == [x EXCEPT !.path = TRUE, !.file = file]
\* In debug mode some parameters are replaced.
Run(x, debug, dbg) == [x EXCEPT !.stage = "started", !.par = IF debug THEN Over(@, dbg) ELSE @, !.evals = 0]
Initialized(x) == [x EXCEPT !.stage = "initialized"]
WarmedUp(x) == [x EXCEPT !.stage = "warm"]
Evaluated(x, n) == [x EXCEPT !.stage = "evaluated", !.evals = n]
Finished(x) == [x EXCEPT !.stage = "finished"]
Written(x, file) == [x EXCEPT !.stage = "done", !.file = IF x.path THEN file ELSE @]
Failed(x) == [x EXCEPT !.stage = "failed"]

\* Seconds of d days, h hours, m minutes and s seconds.
Seconds(d, h, m, s) == ((d * 24 + h) * 60 + m) * 60 + s

\* Number of transitions from each step 1..8 in the first simulation, in a model that
\* goes to the next step every pace transitions and does not end: it makes one transition
\* in the tree (from step 0), then rollouts that start with the second one.  Transition
\* k (from 0) is made from step k \div pace, if the horizon, in transitions or in changes
\* of step, is not reached by those before.
FirstSimulation(kind, pace, horizon, rollouts) == [i \in 1..8 |->
    rollouts * Cardinality({k \in 1..(9 * pace) : /\ k \div pace = i
                                                  /\ (IF kind = "htm" THEN k \div pace ELSE k) < horizon})]
=============================================================================
