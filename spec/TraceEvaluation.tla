-------------------------- MODULE TraceEvaluation ---------------------------
(* Traces of evaluations: calls of the policy and of the model, and what is  *)
(* recorded at the end.                                                      *)
EXTENDS Evaluation, FiniteSets, TraceLib

\* The episode; what the policy is doing ("", "get" or "tell"); parameters.
VARIABLES e, doing, pm
tvars == <<e, doing, pm>>
TInit == TraceLibInit /\ e = NewEpisode(0) /\ doing = "" /\ pm = [max |-> 0, p |-> 1, q |-> 1]
Do(op, act, fails) == /\ IsEvent(op) /\ UNCHANGED tr
                      /\ IF fails = {} THEN act /\ Accept ELSE Reject(fails) /\ UNCHANGED tvars
Fin(s) == s \div Cfg.div = Cfg.fin

TBegin == IsEvent("begin") /\
    Do("begin", e' = NewEpisode(Ev.max) /\ doing' = "" /\ pm' = [max |-> Ev.max, p |-> Ev.p, q |-> Ev.q], {})
TReset == IsEvent("reset") /\ Do("reset", e' = PolicyReset(e) /\ UNCHANGED <<doing, pm>>,
    Must("reset-during-episode", e.phase \in {"new", "decide"} /\ e.A = <<>>))
TStart == IsEvent("start") /\ Do("start", e' = Started(e, Ev.s) /\ UNCHANGED <<doing, pm>>,
    Must("several-starts", e.phase = "new"))
TGetIn == IsEvent("getin") /\ Do("getin", doing' = "get" /\ UNCHANGED <<e, pm>>,
    Must("not-reset", e.reset)
    \cup Must("decision-out-of-turn", e.phase = "decide" /\ doing = "")
    \cup Must("goes-on-after-end", ~ Over(e, Fin)))
TGetOut == IsEvent("getout") /\ Do("getout", e' = Decided(e, Ev.a) /\ doing' = "" /\ UNCHANGED pm, {})
TCall == IsEvent("call") /\
    IF doing # "" THEN Do("call", e' = [e EXCEPT !.calls = @ + 1] /\ UNCHANGED <<doing, pm>>, {})
    ELSE Do("call", e' = Acted(e, Ev.t, Ev.o, Ev.r) /\ UNCHANGED <<doing, pm>>,
            Must("transition-out-of-turn", e.phase = "act")
            \cup Must("transition-made", Ev.a = e.a /\ Ev.s = e.s))
TTellIn == IsEvent("stepin") /\ Do("stepin", doing' = "tell" /\ UNCHANGED <<e, pm>>,
    Must("observation-out-of-turn", e.phase = "tell")
    \cup Must("observation-told", e.O # <<>> /\ Ev.o = e.O[Len(e.O)]))
TTellOut == IsEvent("stepout") /\ Do("stepout", e' = Told(e) /\ doing' = "" /\ UNCHANGED pm, {})

Near(x, y, tol) == x - y \in (-tol)..tol
Ret == Return(e.R, pm.p, pm.q)
\* Planners with particles cannot always follow a rare observation.
TooRare == Cfg.rare /\ doing = "tell" /\ Ev.out = "MaxSamplesReached"
TRet == IsEvent("ret") /\ Do("ret", UNCHANGED tvars,
    Must("outcome", Ev.out = "ok" \/ TooRare)
    \cup (IF Ev.out # "ok" THEN {} ELSE
          Must("ends-too-soon", e.phase = "decide" /\ Over(e, Fin))
          \cup Must("not-reset", e.reset)
          \cup Must("recorded-states", Ev.states = e.S)
          \cup Must("recorded-actions", Ev.actions = e.A)
          \cup Must("recorded-observations", Ev.observations = e.O)
          \cup Must("recorded-rewards", Ev.rewards = e.R)
          \cup Must("return", Near(Ev.ret, Ret, Len(e.R) + 2))
          \cup Must("simulator-calls", Ev.calls = e.calls)
          \cup Must("elapsed-time", Ev.elapsed >= 0)))
\* Logged summary: lines are [s, a, o, r].
TSummary == IsEvent("summary") /\ Do("summary", UNCHANGED tvars,
    Must("summary-readable", Ev.ok)
    \cup (IF ~ Ev.ok THEN {} ELSE
          Must("summary-numbers", Ev.n = Len(e.A) /\ Near(Ev.ret * 1000, Ret, 520 + Len(e.R)) /\ Ev.calls = e.calls)
          \cup Must("summary-transitions",
                 /\ Len(Ev.lines) = Len(e.A)
                 /\ \A i \in 1..Len(Ev.lines) : Ev.lines[i] = [s |-> e.S[i], a |-> e.A[i], o |-> e.O[i], r |-> e.R[i]]
                 /\ Ev.last = e.S[Len(e.S)])))
\* Logged trajectory of a planner, which goes on until a final state: lines are
\* [s, a, t, o, r], with the belief on the first preference after each one.
RECURSIVE Sum(_)
Sum(R) == IF R = <<>> THEN 0 ELSE R[1] + Sum(Tail(R))
TTrajectory == IsEvent("trajectory") /\ Do("trajectory", UNCHANGED tvars,
    Must("trajectory-ends-too-soon", e.phase = "decide" /\ Over(e, Fin))
    \cup Must("not-reset", e.reset)
    \cup Must("trajectory-readable", Ev.ok)
    \cup (IF ~ Ev.ok THEN {} ELSE
          Must("trajectory-total", Near(Ev.total, Sum(e.R), 2))
          \cup Must("trajectory-transitions",
                 /\ Len(Ev.lines) = Len(e.A)
                 /\ \A i \in 1..Len(Ev.lines) :
                       Ev.lines[i] = [s |-> e.S[i], a |-> e.A[i], t |-> e.S[i + 1], o |-> e.O[i], r |-> e.R[i]])
          \cup Must("trajectory-beliefs",
                 /\ Len(Ev.prefs) = Len(e.A) /\ Len(Ev.bel) = Len(e.A)
                 /\ \A i \in 1..Len(Ev.prefs) : Near(Ev.prefs[i], Ev.bel[i], 6))
          \cup Must("trajectory-beliefs-on-steps",
                 /\ Len(Ev.shown) = Len(e.A)
                 /\ \A i \in 1..Len(Ev.shown) :
                       /\ Len(Ev.shown[i]) = Len(Ev.steps[i])
                       /\ \A k \in 1..Len(Ev.shown[i]) : Near(Ev.shown[i][k], Ev.steps[i][k], 52))))
\* Several evaluations in processes: episodes that match no record, and records that match none.
TMany == IsEvent("many") /\ Do("many", UNCHANGED tvars,
    Must("many-outcome", Ev.out = "ok" \/ (Cfg.rare /\ Ev.out = "RuntimeError"))
    \cup Must("number-of-evaluations", Ev.out = "ok" => Ev.got = Ev.n /\ Ev.episodes = Ev.n /\ Ev.unmatched = 0))
TCrash == \/ Do("crash", UNCHANGED tvars, {"unexpected-exception"})
          \/ Do("hang", UNCHANGED tvars, {"does-not-terminate"})
TNext == \/ TBegin \/ TReset \/ TStart \/ TGetIn \/ TGetOut \/ TCall \/ TTellIn \/ TTellOut \/ TRet \/ TSummary \/ TTrajectory
         \/ TMany \/ TCrash \/ (Finish /\ UNCHANGED tvars)
TSpec == TInit /\ [][TNext]_<<tvars, tr, ln>>
=============================================================================
