---------------------------- MODULE MCExperiment ----------------------------
(* All experiments, with failures at any stage, repeated runs and all        *)
(* parameters in a small world.                                              *)
EXTENDS Experiment
CONSTANTS Names, Runs
Defaults == [n \in Names |-> 0]
Dbg == [n \in {CHOOSE n \in Names : TRUE} |-> 9]
VARIABLES x, given, debug, runs, seen
vars == <<x, given, debug, runs, seen>>
N(y) == y.par[CHOOSE n \in Names : TRUE]
Init == /\ \E D \in SUBSET (Names \cup {"other"}) : given \in [D -> 1..2]
        /\ debug = FALSE /\ runs = 0 /\ seen = <<>>
        /\ x \in {NewExperiment(Defaults, given), WithPath(NewExperiment(Defaults, given), NoFile)}
Fail == x.stage \in {Stages[i] : i \in 2..6} /\ x' = Failed(x) /\ UNCHANGED <<given, debug, runs, seen>>
Start == /\ x.stage \in {"ready", "done", "failed"} /\ runs < Runs
         /\ \E d \in BOOLEAN : debug' = (d \/ debug) /\ x' = Run(x, d, Dbg)
         /\ runs' = runs + 1 /\ seen' = <<"start">> /\ UNCHANGED given
Go(from, y, what) == x.stage = from /\ x' = y /\ seen' = Append(seen, what) /\ UNCHANGED <<given, debug, runs>>
Next == \/ Start \/ Fail
        \/ Go("started", Initialized(x), "init") \/ Go("initialized", WarmedUp(x), "warmup")
        \/ Go("warm", Evaluated(x, N(x)), "evaluate") \/ Go("evaluated", Finished(x), "finish")
        \/ Go("finished", Written(x, [is |-> TRUE, run |-> runs, evals |-> x.evals]), "write")
Spec == Init /\ [][Next]_vars
Order == <<"start", "init", "warmup", "evaluate", "finish", "write">>
InOrder == seen = SubSeq(Order, 1, Len(seen))
OnlyComplete == [][x'.file # x.file => seen' = Order /\ x'.path /\ x'.file.evals = N(x')]_vars
NoPathNoFile == ~ x.path => ~ x.file.is
Merged == \A n \in DOMAIN x.par :
    x.par[n] = (IF debug /\ n \in DOMAIN Dbg THEN 9 ELSE IF n \in DOMAIN given THEN given[n] ELSE 0)
Complete == DOMAIN x.par = Names \cup DOMAIN given
FreshFile == x.stage = "done" /\ x.path => x.file.run = runs
=============================================================================
