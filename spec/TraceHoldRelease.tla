-------------------------- MODULE TraceHoldRelease --------------------------
EXTENDS HoldRelease, TraceLib
Query(op, fails) == IsEvent(op) /\ UNCHANGED tr
                    /\ IF fails = {} THEN Accept ELSE Reject(fails)
Pos(x, seq) == CHOOSE i \in 1..Len(seq) : seq[i] = x
Val(d, x) == IF x \in DOMAIN d THEN d[x] ELSE RZero
Rng(s) == {s[i] : i \in 1..Len(s)}
TModel == IsEvent("model") /\ Query("model",
    IF Ev.out # "ok" THEN {"outcome"} ELSE
    IF ~ (Rng(Ev.states) = States /\ Rng(Ev.actions) = Actions
          /\ Rng(Ev.observations) = {"nothing", "doing", "done"}) THEN {"names"} ELSE
    Must("start", \A s \in States : Ev.start[Pos(s, Ev.states)]
                                    = IF s = "zero" THEN ROne ELSE RZero)
    \cup Must("discount", Ev.discount = ROne)
    \cup Must("transitions", \A a \in Actions, s, n \in States :
           Ev.T[Pos(a, Ev.actions)][Pos(s, Ev.states)][Pos(n, Ev.states)] = Val(Trans(Ev.m, a, s), n))
    \cup Must("observations", \A a \in Actions, n \in States, o \in Rng(Ev.observations) :
           Ev.O[Pos(a, Ev.actions)][Pos(n, Ev.states)][Pos(o, Ev.observations)]
             = IF Obs(a, n) = o THEN ROne ELSE RZero)
    \cup Must("costs", \A a \in Actions, s, n \in States :
           Ev.C[Pos(a, Ev.actions)][Pos(s, Ev.states)][Pos(n, Ev.states)] = Cost(Ev.m, a, s)))
TCrash == \/ Query("crash", {"unexpected-exception"})
          \/ Query("hang", {"does-not-terminate"})
TNext == TModel \/ TCrash \/ Finish
TSpec == TraceLibInit /\ [][TNext]_<<tr, ln>>
=============================================================================
