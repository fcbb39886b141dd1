----------------------------- MODULE RepeatPool -----------------------------
(***************************************************************************)
(* Repeats a function N times in processes, at most Slots at once: the     *)
(* parent starts processes in free slots, collects results from their      *)
(* pipes, and frees slots of processes that have ended.  Processes may     *)
(* fail at any time: before, while and after they send their result.       *)
(* With Common = TRUE results go through a single pipe, which is what the  *)
(* code did at first: TLC finds that the parent can wait for ever.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS N, Slots, Failures, Common
\* proc[i]: "todo", "run", "sending", "sent", "ended", "failed"
\* slot[j]: process of the slot, or 0
\* pipe[i]: "none", "part" or "whole" result, or "read"
\* parent: "check", "fill", "collect", "last" and then "returned" or "raised"
\* reading: process whose result is being read, or 0
VARIABLES proc, slot, pipe, results, parent, reading, failures
vars == <<proc, slot, pipe, results, parent, reading, failures>>

Procs == 1..N
Init == /\ proc = [i \in Procs |-> "todo"] /\ slot = [j \in 1..Slots |-> 0]
        /\ pipe = [i \in Procs |-> "none"] /\ results = {} /\ parent = "check" /\ reading = 0 /\ failures = 0

\* -- Processes
Running(i) == proc[i] \in {"run", "sending", "sent"}
\* A common pipe is locked by the process that sends.
MaySend(i) == ~ Common \/ \A j \in Procs : pipe[j] # "part"
Send(i) == /\ proc[i] = "run" /\ MaySend(i)
           /\ proc' = [proc EXCEPT ![i] = "sending"] /\ pipe' = [pipe EXCEPT ![i] = "part"]
           /\ UNCHANGED <<slot, results, parent, reading, failures>>
Sent(i) == /\ proc[i] = "sending"
           /\ proc' = [proc EXCEPT ![i] = "sent"] /\ pipe' = [pipe EXCEPT ![i] = "whole"]
           /\ UNCHANGED <<slot, results, parent, reading, failures>>
End(i) == /\ proc[i] = "sent" /\ proc' = [proc EXCEPT ![i] = "ended"]
          /\ UNCHANGED <<slot, pipe, results, parent, reading, failures>>
Fail(i) == /\ Running(i) /\ failures < Failures /\ failures' = failures + 1
           /\ proc' = [proc EXCEPT ![i] = "failed"]
           /\ UNCHANGED <<slot, pipe, results, parent, reading>>

\* -- Parent: checks slots, fills them, reads results, and so on.
Busy == \E j \in 1..Slots : slot[j] # 0
Left == \E i \in Procs : proc[i] = "todo"
Check == /\ parent = "check"
         /\ IF ~ (Left \/ Busy) THEN parent' = "last" /\ UNCHANGED slot
            ELSE IF \E j \in 1..Slots : slot[j] # 0 /\ proc[slot[j]] = "failed"
            THEN parent' = "raised" /\ UNCHANGED slot
            ELSE /\ slot' = [j \in 1..Slots |-> IF slot[j] # 0 /\ proc[slot[j]] = "ended" THEN 0 ELSE slot[j]]
                 /\ parent' = "fill"
         /\ UNCHANGED <<proc, pipe, results, reading, failures>>
Fill == /\ parent = "fill"
        /\ IF Left /\ \E j \in 1..Slots : slot[j] = 0
           THEN LET i == CHOOSE x \in Procs : proc[x] = "todo" /\ \A y \in 1..(x - 1) : proc[y] # "todo"
                    j == CHOOSE x \in 1..Slots : slot[x] = 0
                IN proc' = [proc EXCEPT ![i] = "run"] /\ slot' = [slot EXCEPT ![j] = i] /\ UNCHANGED parent
           ELSE parent' = "collect" /\ UNCHANGED <<proc, slot>>
        /\ UNCHANGED <<pipe, results, reading, failures>>
Open == {i \in Procs : proc[i] # "todo" /\ pipe[i] # "read"}
\* Pipes with something to read: a part of a result, or the end of the process.
Ready == {i \in Open : pipe[i] # "none" \/ (~ Common /\ proc[i] = "failed")}
Start == /\ parent \in {"collect", "last"} /\ reading = 0
         /\ \/ \E i \in Ready : reading' = i /\ UNCHANGED parent
            \/ /\ parent = "collect" /\ parent' = "check" /\ UNCHANGED reading
            \/ /\ parent = "last" /\ Open = {} /\ parent' = "returned" /\ UNCHANGED reading
         /\ UNCHANGED <<proc, slot, pipe, results, failures>>
\* Reading ends with the whole result or, if the pipe is not common, when it is closed.
Read == /\ reading # 0
        /\ \/ /\ pipe[reading] = "whole" /\ results' = results \cup {reading} /\ reading' = 0
              /\ pipe' = [pipe EXCEPT ![reading] = "read"] /\ UNCHANGED parent
           \/ /\ ~ Common /\ pipe[reading] # "whole" /\ proc[reading] = "failed"
              /\ parent' = "raised" /\ UNCHANGED <<reading, pipe, results>>
        /\ UNCHANGED <<proc, slot, failures>>
Parent == Check \/ Fill \/ Start \/ Read
Next == Parent \/ \E i \in Procs : Send(i) \/ Sent(i) \/ End(i) \/ Fail(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Parent)
             /\ \A i \in Procs : SF_vars(Send(i)) /\ WF_vars(Sent(i)) /\ WF_vars(End(i))

\* -- What must hold.
AtMostSlots == Cardinality({i \in Procs : Running(i)}) <= Slots
AllResults == parent = "returned" => results = Procs /\ failures = 0
OnlyFailures == parent = "raised" => failures > 0
Ends == <>(parent \in {"returned", "raised"})
=============================================================================
