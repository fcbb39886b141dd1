----------------------------- MODULE TraceAsync -----------------------------
(* Traces of planners that explore in the background.  Events of both        *)
(* threads are in the order in which they happened; those of simulations     *)
(* have the thread (th) that makes them.                                     *)
EXTENDS TraceSearchTree

\* op: call under way ([what |-> "none"] between calls); goal: target of the thread
\* [key, a]; busy: what is being done by whom; acts: actions that were explored since
\* the call; sims: simulations made by the caller in the call; best: actions that
\* may be chosen; stopped; inside: the call was made in a background simulation that
\* has not ended.
VARIABLES op, goal, busy, acts, sims, best, stopped, inside
avars == <<op, goal, busy, acts, sims, best, stopped, inside>>
NoOp == [what |-> "none", o |-> 0, iters |-> 0]

AInit == /\ TInit /\ op = NoOp /\ busy = "" /\ acts = {} /\ sims = 0 /\ best = {} /\ stopped = FALSE /\ inside = FALSE
         /\ goal = [key |-> cur, a |-> 0]

ADo(o, act, fails) ==
    /\ IsEvent(o)
    /\ UNCHANGED tr
    /\ IF fails = {} THEN act /\ Accept
       ELSE Reject(fails) /\ UNCHANGED <<tvars, avars>>

\* Step that is under way: the node that it may have created already.
Pending == op.what = "step" /\ last > 0 /\ op.o > 0 /\ ~ HasEdge(N, cur, last, op.o)
           /\ (P.shared => cur[1] <= Len(P.succ) /\ P.succ[cur[1]][last][op.o] # 0)
Grown == Grow(P, N, cur, last, op.o)
NewKey == Child(P, cur, last, op.o, EdgeTo(P, cur, last, op.o))
EdgeSeen(D) == \E i \in 1..Len(D) : D[i].key = cur /\ D[i].edge[last][op.o] # 0
Now(D) == IF Pending THEN IF NewKey \in DKeys(D) \/ EdgeSeen(D) THEN Grown ELSE N ELSE N

\* Targets of background simulations that are allowed now.
RightTarget(k, a) ==
    \/ k = goal.key /\ a = goal.a
    \/ op.what = "get" /\ k = cur
    \/ op.what = "step" /\ last > 0 /\ op.o > 0 /\ k = NewKey /\ a = 0
    \/ op.what = "step" /\ last > 0 /\ op.o > 0 /\ HasEdge(N, cur, last, op.o) /\ a = 0
                        /\ k = Child(P, cur, last, op.o, N[cur].edge[last][op.o])
    \/ op.what = "reset" /\ k = Root(P) /\ a = 0

ACall == IsEvent("opcall") /\
    ADo("opcall", /\ op' = [what |-> Ev.what, o |-> Ev.o, iters |-> Ev.iters]
                  /\ acts' = {} /\ sims' = 0 /\ best' = {} /\ inside' = (busy = "bg")
                  /\ UNCHANGED <<tvars, goal, busy, stopped>>, {})

ABegin == IsEvent("simin") /\ LET T == Now(Ev.delta) IN
    ADo("simin",
        /\ N' = Resync(T, Ev.delta) /\ seen' = N'
        /\ sim' = Fresh(P, Ev.key, Ev.forced, 1)
        /\ busy' = Ev.th
        /\ acts' = IF Ev.th = "bg" /\ op.what = "get" THEN acts \cup {Ev.forced} ELSE acts
        /\ UNCHANGED <<cur, hist, last, w, X, op, goal, sims, best, stopped, inside>>,
        For({"A01"}, Must("simultaneous", busy = ""))
        \cup For({"A02"}, Must("simulation-after-stop", ~ (stopped /\ Ev.th = "bg"))
                       \cup Must("target-of-exploration", Ev.th = "bg" => RightTarget(Ev.key, Ev.forced)))
        \cup Must("node-unknown", Ev.key \in DOMAIN T)
        \cup For({"A01"}, Must("decision-from-elsewhere", Ev.th = "main" => op.what = "get" /\ Ev.key = cur /\ Ev.forced = 0)
                       \cup DeltaFails(T, Ev.delta, 4)))

ATransition == IsEvent("call") /\
    IF busy # Ev.th THEN ADo("call", UNCHANGED <<tvars, avars>>, {"simultaneous"})
    ELSE TCall /\ UNCHANGED avars

AEnd == IsEvent("simout") /\
    LET n == sims + 1 IN
       IF Running(sim) THEN ADo("simout", UNCHANGED <<tvars, avars>>, {"transitions-missing"})
       ELSE ADo("simout",
            /\ N' = Resync(N, Ev.delta) /\ seen' = N'
            /\ busy' = "" /\ inside' = FALSE
            /\ sims' = (IF Ev.th = "main" THEN n ELSE sims)
            /\ best' = IF Ev.th = "main" /\ n = op.iters THEN Exploited(P, N', cur, 2) ELSE best
            /\ UNCHANGED <<sim, cur, hist, last, w, X, op, goal, acts, stopped>>,
            Must("simultaneous", busy = Ev.th) \cup For({"A01"}, DeltaFails(N, Ev.delta, 6)))

AFunIn == IsEvent("funin") /\ ADo("funin", busy' = "fun" /\ UNCHANGED <<tvars, op, goal, acts, sims, best, stopped, inside>>,
            For({"A01"}, Must("simultaneous", busy = "")))
AFunOut == IsEvent("funout") /\ ADo("funout", busy' = "" /\ UNCHANGED <<tvars, op, goal, acts, sims, best, stopped, inside>>,
            For({"A01"}, Must("simultaneous", busy = "fun")))

\* Returns of calls.
Ret(what) == IsEvent("ret") /\ op.what = what
Waited == For({"A01"}, Must("call-done-during-simulation", ~ inside))
AGet == Ret("get") /\
    ADo("ret", /\ last' = Ev.a /\ goal' = [key |-> cur, a |-> Ev.a] /\ op' = NoOp /\ acts' = {}
               /\ UNCHANGED <<N, seen, sim, cur, hist, w, X, busy, sims, best, stopped, inside>>,
        Waited \cup Must("action-given", Ev.out = "ok" /\ Ev.a \in 1..P.na)
        \cup For({"A01"}, Must("number-of-simulations", sims = op.iters)
                       \cup Must("best-action", best # {} => Ev.a \in best))
        \cup For({"A02"}, Must("target-of-exploration", acts \subseteq {goal.a, 0, Ev.a})))

AStep == Ret("step") /\
    LET ok == /\ last > 0 /\ op.o > 0
              /\ IF HasModel THEN Succ(M, last, op.o, X) # {}
                 ELSE HasEdge(N, cur, last, op.o) \/ Ev.out = "ok"
        fine == ok /\ Ev.out = "ok"
        T == IF fine /\ Pending THEN Grown ELSE N
    IN ADo("ret",
        IF fine THEN /\ N' = T
                     /\ cur' = Child(P, cur, last, op.o, T[cur].edge[last][op.o])
                     /\ hist' = hist \o <<last, op.o>>
                     /\ IF HasModel THEN w' = NextW(w, X, last, op.o) /\ X' = Succ(M, last, op.o, X)
                        ELSE UNCHANGED <<w, X>>
                     /\ goal' = [key |-> cur', a |-> 0]
                     /\ op' = NoOp
                     /\ UNCHANGED <<seen, sim, last, busy, acts, sims, best, stopped, inside>>
        ELSE op' = NoOp /\ UNCHANGED <<tvars, goal, busy, acts, sims, best, stopped, inside>>,
        (IF fine THEN Waited ELSE {}) \cup
        For({"A02"}, IF ok THEN Must("possible-step-refused", Ev.out = "ok")
                     ELSE Must("impossible-step-accepted", Ev.out # "ok")))

AReset == Ret("reset") /\
    ADo("ret", /\ cur' = Root(P) /\ hist' = <<>> /\ last' = 0
               /\ w' = (IF HasModel THEN Start(M) ELSE w)
               /\ X' = (IF HasModel THEN Support(M.start) ELSE X)
               /\ goal' = [key |-> cur', a |-> 0] /\ op' = NoOp
               /\ UNCHANGED <<N, seen, sim, busy, acts, sims, best, stopped, inside>>,
        Waited \cup For({"A02"}, Must("reset-outcome", Ev.out = "ok")))

\* Functions: right is whether the value or error of the function was passed.
AExec == Ret("exec") /\ ADo("ret", op' = NoOp /\ UNCHANGED <<tvars, goal, busy, acts, sims, best, stopped, inside>>,
        Waited \cup For({"A01"}, Must("value-of-function", Ev.right)))
AStop == Ret("stop") /\ ADo("ret", op' = NoOp /\ stopped' = TRUE /\ UNCHANGED <<tvars, goal, busy, acts, sims, best, inside>>,
        For({"A02"}, Must("stop-outcome", Ev.out = "ok") \cup Must("thread-alive-after-stop", ~ Ev.alive)))
\* Simulations go on.
AProgress == IsEvent("progress") /\ ADo("progress", UNCHANGED <<tvars, avars>>,
        For({"A01", "A02"}, Must("exploration-stalled", ~ stopped => Ev.n > 0)))
AFinal == IsEvent("final") /\ ADo("final", UNCHANGED <<tvars, avars>>, For({"A01"}, DeltaFails(N, Ev.delta, 4)))

ANext == \/ (TNew \/ TPeek \/ TCrash \/ (Finish /\ UNCHANGED tvars)) /\ UNCHANGED avars
         \/ ACall \/ ABegin \/ ATransition \/ AEnd \/ AFunIn \/ AFunOut
         \/ AGet \/ AStep \/ AReset \/ AExec \/ AStop \/ AProgress \/ AFinal
ASpec == AInit /\ [][ANext]_<<tvars, avars, tr, ln>>
=============================================================================
