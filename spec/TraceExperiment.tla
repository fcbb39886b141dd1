-------------------------- MODULE TraceExperiment ---------------------------
(* Traces of experiments, planners of experiments, launchers.                *)
EXTENDS Experiment, TraceLib

\* x: the experiment.
VARIABLES x
tvars == <<x>>
TInit == TraceLibInit /\ x = NewExperiment(<<>>, <<>>)
Do(op, act, fails) == /\ IsEvent(op) /\ UNCHANGED tr
                      /\ IF fails = {} THEN act /\ Accept ELSE Reject(fails) /\ UNCHANGED tvars
Query(op, fails) == Do(op, UNCHANGED tvars, fails)

Dbg == [k \in {"n_warmup", "n_evaluations", "iterations", "n_particles", "horizon-length"} |->
          CASE k = "n_warmup" -> "2" [] k = "n_evaluations" -> "2" [] k = "iterations" -> "10"
            [] k = "n_particles" -> "20" [] OTHER -> "2"]
Has(f, k) == k \in DOMAIN f
Same(f, g) == DOMAIN f = DOMAIN g /\ \A k \in DOMAIN f : f[k] = g[k]
LOCAL INSTANCE TLC
IsNumber(text, n) == text = ToString(n)

TNew == IsEvent("new") /\ LET y == NewExperiment(Ev.defaults, Ev.given) IN
    Do("new", x' = y,
       Must("creation", Ev.out = "ok")
       \cup Must("defaults-modified", Same(Ev.defaults, Ev.after))
       \cup Must("parameters-modified", Ev.kept)
       \cup Must("parameters", Ev.out # "ok" \/ Has(Ev, "later") \/ Same(Ev.par, y.par)))
TPath == IsEvent("path") /\ Do("path", x' = WithPath(x, Ev.file), {})
TRun == IsEvent("run") /\ Do("run", x' = Run(x, Ev.debug, Dbg), {})
TInitRun == IsEvent("init") /\ Do("init", x' = Initialized(x),
    Must("initialization-out-of-turn", x.stage = "started")
    \cup Must("parameters-of-run", Same(Ev.par, x.par)))
TWarm == IsEvent("warmup") /\ Do("warmup", x' = WarmedUp(x),
    Must("warm-up-out-of-turn", x.stage = "initialized")
    \cup Must("warm-up-iterations", IsNumber(x.par["n_warmup"], Ev.it)))
\* The evaluations are seen when finishing: results, and episodes that were run.
TFinish == IsEvent("finish") /\ Do("finish", x' = Finished(Evaluated(x, Ev.n)),
    Must("end-out-of-turn", x.stage = "warm")
    \cup Must("number-of-results", IsNumber(x.par["n_evaluations"], Ev.n))
    \cup Must("number-of-episodes", Ev.episodes = Ev.n))

\* Stage that is reached when failing somewhere.
Reached(f) == CASE f = "init" -> "initialized" [] f = "warmup" -> "warm" [] f = "evaluate" -> "warm"
                [] OTHER -> "finished"
SameFile(f, g) == f.is = g.is /\ (f.is => f = g)
TEnd == IsEvent("end") /\
    LET done == Written(x, Ev.memory) IN
    Do("end", x' = IF Ev.failing = "" THEN done ELSE Failed([x EXCEPT !.file = Ev.file]),
       IF Ev.failing # "" THEN
          Must("failure-ignored", Ev.out # "ok")
          \cup Must("stage-of-failure", x.stage = Reached(Ev.failing))
          \cup Must("written-in-spite-of-failure", Ev.failing = "write" \/ SameFile(Ev.file, x.file))
       ELSE
          Must("run-failed", Ev.out = "ok")
          \cup (IF Ev.out # "ok" THEN {} ELSE
             Must("stages-missing", x.stage = "finished")
             \cup Must("parameters-after-run", Same(Ev.par, x.par))
             \cup Must("recorded-parameters", Same(Ev.memory.par, x.par))
             \cup Must("recorded-evaluations", Len(Ev.memory.ev) = x.evals)
             \cup Must("limit-of-evaluations", \A i \in 1..Len(Ev.memory.ev) : Len(Ev.memory.ev[i].a) = Ev.limit)
             \cup Must("warm-up-time", Ev.memory.warm)
             \cup Must("file-written", Ev.file.is = x.path)
             \cup Must("content-of-file", Ev.file.is => Ev.file = Ev.memory)))
TFiles == IsEvent("files") /\ Query("files", Must("files-written", Ev.got = Ev.want))
TDefaults == IsEvent("defaults") /\ Query("defaults", Must("defaults-modified", Same(Ev.base, Ev.expected)))

TPlanner == IsEvent("planner") /\ Query("planner",
    IF Ev.values THEN Must("particles-with-belief-values", Ev.out = "ValueError")
    ELSE Must("planner-created", Ev.out = "ok")
         \cup (IF Ev.out # "ok" THEN {} ELSE
           Must("first-simulation", Ev.first = FirstSimulation(Ev.kind, Ev.pace, Ev.horizon, Ev.rollouts))
           \cup Must("number-of-simulations", Ev.sims = Ev.iterations)
           \cup Must("number-of-simulations-asked", Ev.done = Ev.asked)
           \cup Must("number-of-particles", Ev.part)
           \cup Must("exploration", Ev.gexplo = Ev.explo /\ Ev.grelative = Ev.relative)))

TPrepare == IsEvent("prepare") /\ Query("prepare",
    Must("prepared", Ev.out = "ok" /\ DOMAIN Ev.got = DOMAIN Ev.exps)
    \cup Must("configuration", Ev.out = "ok" => \A n \in DOMAIN Ev.exps : Same(Ev.got[n], Ev.exps[n])))
TResults == IsEvent("results") /\ Query("results",
    Must("results-read", Ev.out = "ok" /\ DOMAIN Ev.got = DOMAIN Ev.want)
    \cup Must("content-of-results", Ev.out = "ok" => \A n \in DOMAIN Ev.want :
        LET w == Ev.want[n] IN Ev.got[n] = [ret |-> [i \in 1..Len(w) |-> w[i].ret], t |-> [i \in 1..Len(w) |-> w[i].t],
                                            calls |-> [i \in 1..Len(w) |-> w[i].calls]]))
TElapsed == IsEvent("etime") /\ Query("etime",
    Must("elapsed-time", Ev.out = "ok" /\ Ev.r = Seconds(Ev.t[1], Ev.t[2], Ev.t[3], Ev.t[4]))
    \cup Must("process-asked", Ev.asked))
TCrash == \/ Query("crash", {"unexpected-exception"})
          \/ Query("hang", {"does-not-terminate"})
TNext == \/ TNew \/ TPath \/ TRun \/ TInitRun \/ TWarm \/ TFinish \/ TEnd \/ TFiles \/ TDefaults \/ TPlanner
         \/ TPrepare \/ TResults \/ TElapsed \/ TCrash \/ (Finish /\ UNCHANGED tvars)
TSpec == TInit /\ [][TNext]_<<tvars, tr, ln>>
=============================================================================
