----------------------------- MODULE TraceLong ------------------------------
(* Traces of the hand-written policy.                                        *)
EXTENDS LongPolicy, TraceLib
\* The policy; its history (pairs of action and observation); whether an action was given.
VARIABLES pol, hist, open
tvars == <<pol, hist, open>>
TInit == TraceLibInit /\ pol = Begin /\ hist = <<>> /\ open = FALSE
Do(op, act, fails) == /\ IsEvent(op) /\ UNCHANGED tr
                      /\ IF fails = {} THEN act /\ Accept ELSE Reject(fails) /\ UNCHANGED tvars
TNew == IsEvent("new") /\ Do("new", UNCHANGED tvars, Must("policy-built", Ev.out = "ok"))
TGet == IsEvent("get") /\
    Do("get", pol' = [pol EXCEPT !.last = Ev.a] /\ open' = TRUE /\ UNCHANGED hist,
       Must("chosen-action", Ev.out = "ok" /\ Ev.a \in Chosen(pol, Cfg.n, {HoldH})))
TStep == IsEvent("step") /\
    IF ~ open THEN Do("step", UNCHANGED tvars, Must("step-without-action", Ev.out = "ValueError"))
    ELSE IF Ev.o = "?" THEN Do("step", UNCHANGED tvars, Must("unknown-observation", Ev.out = "ValueError"))
    ELSE LET m == Meaning(pol, Ev.o, {HoldH}) IN
         Do("step", pol' = After(pol, Ev.o, {HoldH}) /\ open' = FALSE /\ hist' = Append(hist, <<pol.last, Ev.o>>),
            IF m = "unexpected" THEN Must("unexpected-observation", Ev.out = "UnexpectedObservation")
            ELSE Must("step-outcome", Ev.out = "ok"))
TReset == IsEvent("reset") /\
    Do("reset", pol' = Begin /\ hist' = <<>> /\ open' = FALSE, Must("reset-outcome", Ev.out = "ok"))
TPeek == IsEvent("peek") /\ Do("peek", UNCHANGED tvars, Must("history", Ev.hist = hist))
TCrash == \/ Do("crash", UNCHANGED tvars, {"unexpected-exception"})
          \/ Do("hang", UNCHANGED tvars, {"does-not-terminate"})
TNext == TNew \/ TGet \/ TStep \/ TReset \/ TPeek \/ TCrash \/ (Finish /\ UNCHANGED tvars)
TSpec == TInit /\ [][TNext]_<<tvars, tr, ln>>
=============================================================================
