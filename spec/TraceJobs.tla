----------------------------- MODULE TraceJobs ------------------------------
(* Traces of scripts of experiments: model, policy and evaluations.          *)
EXTENDS Jobs, TraceLib
\* The hand-written policy; the current episode: state, number of transitions, sum of
\* rewards, over; episodes seen.
VARIABLES pol, x, n, total, seen
tvars == <<pol, x, n, total, seen>>
TInit == TraceLibInit /\ pol = LP!Begin /\ x = 0 /\ n = 0 /\ total = 0 /\ seen = [got |-> 0, want |-> 0, open |-> FALSE]
Do(op, act, fails) == /\ IsEvent(op) /\ UNCHANGED tr
                      /\ IF fails = {} THEN act /\ Accept ELSE Reject(fails) /\ UNCHANGED tvars
RatOf(v) == Rat(v[1], v[2])
P == [Cfg.p EXCEPT !.ppref = RatOf(@), !.pchange = RatOf(@)]
M0 == Cfg.m
M == [M0 EXCEPT !.pfail = RatOf(@), !.pall = RatOf(@), !.pobj = RatOf(@), !.pchange = RatOf(@),
                !.ppref = [i \in 1..Len(@) |-> RatOf(@[i])]]
Bind(v, f(_)) == UNION {f(y) : y \in {v}}
Nx == Nexts(P)
N == Subtasks(P, Steps(M0))
Hand == ~ Planner(P)

\* Planners with particles cannot always follow a rare observation.
TRan == IsEvent("ran") /\ Do("ran", UNCHANGED tvars,
    IF Known(P) THEN Must("job-fails", Ev.out = "ok" \/ (Planner(P) /\ Ev.out = "RuntimeError"))
                     \cup Must("results-written", Ev.file = (Ev.out = "ok"))
    ELSE Must("unknown-job", Ev.out \notin {"ok", "SystemExit"}) \cup Must("results-of-unknown-job", ~ Ev.file))
TMade == IsEvent("made") /\ Do("made", UNCHANGED tvars, Must("job-fails", Ev.out = "ok"))

TModel == IsEvent("model") /\ Do("model", UNCHANGED tvars, Bind(M, LAMBDA m :
    LET L(i) == [hold |-> m.leaf[i].hold, conds |-> {Ev.conds[i][j] : j \in 1..Len(Ev.conds[i])}]
        LabelOf(l) == [hold |-> l.hold, conds |-> {[c |-> z.c, name |-> z.o] : z \in l.conds}]
        W == {[i \in 1..Len(w) |-> L(w[i])] : w \in AllWalks(m, Steps(m))}
        T == {[i \in 1..Len(e) |-> LabelOf(e[i])] : e \in TaskOf(P)}
    IN Must("task-of-job", W = T)
       \cup Must("parameters-of-model", \A f \in DOMAIN NumbersOf(P) : m[f] = NumbersOf(P)[f])
       \cup Must("discount", Ev.gamma = <<1, 1>>)
       \cup Must("observations", Ev.observations = Observations)))

TEvaluations == IsEvent("evaluations") /\ Do("evaluations", seen' = [seen EXCEPT !.want = Ev.n] /\ UNCHANGED <<pol, x, n, total>>,
    Must("number-of-evaluations", Ev.n = IF P.reps = -1 THEN Repetitions(P) ELSE P.reps))

TStart == IsEvent("start") /\
    Do("start", pol' = LP!Begin /\ x' = Ev.s /\ n' = 0 /\ total' = 0 /\ seen' = [seen EXCEPT !.open = TRUE],
       Bind(Possible(M), LAMBDA m : Must("start-of-episode",
            Decode(m, Ev.s) \in {Starts(m)[i].x : i \in 1..Len(Starts(m))})))

Over == n >= MaxLength(P) \/ (n > 0 /\ Decode(M0, x).h = Final(M0))
TAct == IsEvent("act") /\ Do("act",
    pol' = (IF Hand THEN LP!After([pol EXCEPT !.last = Ev.a], Ev.o, Nx) ELSE pol)
    /\ x' = Ev.t /\ n' = n + 1 /\ total' = total + Ev.r /\ UNCHANGED seen,
    Must("goes-on-after-end", seen.open /\ ~ Over)
    \cup Must("action-of-policy", Hand => Ev.a \in LP!Chosen(pol, N, Nx))
    \cup Must("action-of-model", Here(M0, Cfg.objects, Ev.a))
    \cup (IF ~ Here(M0, Cfg.objects, Ev.a) THEN {} ELSE Bind(Possible(M), LAMBDA m : Bind(
          {<<z.t, z.o, z.r>> : z \in LET l == Outcomes(m, ActionOf(Ev.a, Cfg.objects), Decode(m, x), TRUE) IN
                                      {l[i] : i \in 1..Len(l)}},
          LAMBDA S : Must("impossible-transition", <<Decode(m, Ev.t), Ev.o, Ev.r>> \in S))))
    \cup Must("meaning-of-observation", Hand => LP!Meaning([pol EXCEPT !.last = Ev.a], Ev.o, Nx) # "unexpected"))
TEnd == IsEvent("end") /\ Do("end", seen' = [seen EXCEPT !.got = @ + 1, !.open = FALSE] /\ UNCHANGED <<pol, x, n, total>>,
    Must("sizes-of-histories", \A i \in 1..4 : Ev.sizes[i] = n)
    \cup Must("ends-too-soon", Over)
    \cup Must("return", Ev.ret = total)
    \cup Must("simulator-calls", IF Hand THEN Ev.calls = n ELSE Ev.calls >= n))

\* The policy alone.
TReset == IsEvent("reset") /\ Do("reset", pol' = LP!Begin /\ UNCHANGED <<x, n, total, seen>>, Must("reset", Ev.out = "ok"))
TGet == IsEvent("get") /\ Do("get", pol' = [pol EXCEPT !.last = Ev.a] /\ UNCHANGED <<x, n, total, seen>>,
    Must("action-of-policy", Ev.out = "ok" /\ Ev.a \in LP!Chosen(pol, N, Nx)))
TTell == IsEvent("tell") /\ Do("tell", pol' = LP!After(pol, Ev.o, Nx) /\ UNCHANGED <<x, n, total, seen>>,
    Must("meaning-of-observation",
         Ev.out = IF LP!Meaning(pol, Ev.o, Nx) = "unexpected" THEN "UnexpectedObservation" ELSE "ok"))

TCrash == \/ Do("crash", UNCHANGED tvars, {"unexpected-exception"})
          \/ Do("hang", UNCHANGED tvars, {"does-not-terminate"})
TNext == \/ TRan \/ TMade \/ TModel \/ TEvaluations \/ TStart \/ TAct \/ TEnd \/ TReset \/ TGet \/ TTell \/ TCrash
         \/ (Finish /\ UNCHANGED tvars)
TSpec == TInit /\ [][TNext]_<<tvars, tr, ln>>
=============================================================================
