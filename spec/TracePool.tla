----------------------------- MODULE TracePool ------------------------------
(* Traces of repetitions in processes: starts and ends of processes (as      *)
(* they write it themselves) during each call.  Processes of a failed call   *)
(* are ended by the harness.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TraceLib

\* Processes that are running, have ended and have failed in the call; random draws so far.
VARIABLES running, done, failed, draws, given
tvars == <<running, done, failed, draws, given>>

TInit == TraceLibInit /\ running = {} /\ done = {} /\ failed = {} /\ draws = {} /\ given = [n |-> 0, ncpu |-> 1]
Do(op, act, fails) == /\ IsEvent(op) /\ UNCHANGED tr
                      /\ IF fails = {} THEN act /\ Accept ELSE Reject(fails) /\ UNCHANGED tvars

TCall == IsEvent("call") /\
    Do("call", running' = {} /\ done' = {} /\ failed' = {} /\ given' = [n |-> Ev.n, ncpu |-> Ev.ncpu] /\ UNCHANGED draws, {})
TStart == IsEvent("start") /\
    Do("start", running' = running \cup {Ev.pid} /\ draws' = draws \cup {Ev.draw} /\ UNCHANGED <<done, failed, given>>,
       Must("too-many-processes", Cardinality(running) < given.ncpu)
       \cup Must("too-many-runs", Cardinality(running \cup done \cup failed) < given.n)
       \cup Must("process-used-again", Ev.pid \notin running \cup done \cup failed)
       \cup Must("same-random-state",
                 \* no number is drawn twice: streams do not overlap either
                 \A d \in draws : {d[i] : i \in 1..Len(d)} \cap {Ev.draw[i] : i \in 1..Len(Ev.draw)} = {}))
TStop == IsEvent("end") /\ Do("end", running' = running \ {Ev.pid} /\ done' = done \cup {Ev.pid} /\ UNCHANGED <<failed, draws, given>>, {})
TDie == IsEvent("die") /\ Do("die", running' = running \ {Ev.pid} /\ failed' = failed \cup {Ev.pid} /\ UNCHANGED <<done, draws, given>>, {})
Pids == {Ev.results[i].pid : i \in 1..Len(Ev.results)}
TRet == IsEvent("ret") /\
    Do("ret", UNCHANGED tvars,
       IF Ev.out = "ok"
       THEN Must("failure-not-reported", failed = {})
            \cup Must("runs-missing", running = {} /\ Cardinality(done) = given.n)
            \cup Must("results", Len(Ev.results) = given.n /\ Pids = done)
            \cup Must("results-of-runs", \A i \in 1..Len(Ev.results) : Ev.results[i].draw \in draws)
       ELSE Must("error-without-failure", failed # {}))
\* Results that do not tell which process they come from.
TValues == IsEvent("values") /\ Do("values", UNCHANGED tvars,
    Must("results-of-any-kind", Ev.out = "ok" /\ Ev.count = Ev.n /\ Ev.right))
TCrash == \/ Do("crash", UNCHANGED tvars, {"unexpected-exception"})
          \/ Do("hang", UNCHANGED tvars, {"does-not-terminate"})
TNext == TCall \/ TStart \/ TStop \/ TDie \/ TRet \/ TValues \/ TCrash \/ (Finish /\ UNCHANGED tvars)
TSpec == TInit /\ [][TNext]_<<tvars, tr, ln>>
=============================================================================
