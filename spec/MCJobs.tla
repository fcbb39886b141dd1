------------------------------- MODULE MCJobs -------------------------------
(* Episodes of hand-written policies in the models of jobs.                  *)
EXTENDS Jobs
CONSTANTS Level
VARIABLES P, x, pol, n, phase, obs
vars == <<P, x, pol, n, phase, obs>>

Default == [job |-> "preference", task |-> "", n |-> 1, policy |-> "", ppref |-> ROne, pchange |-> RZero,
            pchangegiven |-> FALSE, subrewards |-> FALSE]
Jobs == { [Default EXCEPT !.policy = q, !.ppref = p] : q \in {"always-hold", "never-hold"}, p \in {RZero, ROne, Rat(3, 10)} }
        \cup { [Default EXCEPT !.policy = q, !.pchange = Rat(1, 10), !.pchangegiven = TRUE] : q \in {"always-hold", "never-hold"} }
        \cup { [Default EXCEPT !.job = "multitask", !.task = "sequence", !.policy = q, !.n = k] :
                 q \in {"repeat", "random"}, k \in 1..Level }
        \cup IF Level < 3 THEN {} ELSE
             { [Default EXCEPT !.job = "multitask", !.task = "alternative", !.policy = "random"] }
Objects == <<"joints", "leg", "screwdriver", "screws">>
Coded(L) == [hold |-> L.hold, conds |-> SetToSeq({[c |-> z.c, o |-> CHOOSE i \in 1..4 : Objects[i] = z.o] : z \in L.conds})]
\* A model of the task, with one step for each step of each execution.
ModelOf(p) ==
    LET T == SetToSeq(TaskOf(p))
        len == Len(T[1])
        k == Len(T)
        N == NumbersOf(p)
    IN Possible([leaf |-> [i \in 1..(k * len) |-> Coded(T[(i - 1) \div len + 1][((i - 1) % len) + 1])],
        succs |-> [i \in 1..(k * len) |-> IF i % len = 0 THEN <<k * len + 1>> ELSE <<i + 1>>],
        init |-> [i \in 1..k |-> (i - 1) * len + 1], nobj |-> 4, clear |-> <<TRUE, FALSE, TRUE, TRUE>>, npref |-> 1,
        ppref |-> N.ppref, pfail |-> N.pfail, pall |-> N.pall,
        \* (without what the human does by himself, except when asked for)
        pobj |-> IF Level < 2 THEN N.pobj ELSE RZero, pchange |-> N.pchange, rsub |-> N.rsub, rfin |-> N.rfin,
        rpref |-> N.rpref, indep |-> N.indep, cget |-> N.cget, cintr |-> N.cintr, chold |-> N.chold])
Lengths(p) == IF p.job = "preference" THEN 1 ELSE IF p.task = "sequence" THEN p.n ELSE 4
Models == TLCEval([p \in Jobs |-> TLCEval(ModelOf(p))])
M == Models[P]
Sub == Subtasks(P, Steps(M))
Nx == Nexts(P)
Cap == 15

Init == /\ P \in Jobs /\ pol = LP!Begin /\ n = 0 /\ phase = "choose" /\ obs = ""
        /\ x \in {Starts(Models[P])[i].x : i \in 1..Len(Starts(Models[P]))}
Choose == /\ phase = "choose" /\ x.h # Final(M) /\ phase' = "act"
          /\ \E a \in LP!Chosen(pol, Sub, Nx) : pol' = [pol EXCEPT !.last = a]
          /\ UNCHANGED <<P, x, n, obs>>
Happens(good) ==
    /\ phase = "act" /\ phase' = "choose"
    /\ \E l \in {Outcomes(M, ActionOf(pol.last, Objects), x, TRUE)} : \E y \in Range(l) :
         /\ (y.o # "fail") = good
         /\ x' = y.t /\ obs' = y.o
         /\ pol' = LP!After(pol, y.o, Nx)
    /\ n' = (IF n < Cap THEN n + 1 ELSE n)
    /\ UNCHANGED P
Next == Choose \/ Happens(TRUE) \/ Happens(FALSE)
Spec == Init /\ [][Next]_vars /\ WF_vars(Choose) /\ SF_vars(Happens(TRUE)) /\ WF_vars(Next)

\* Tasks are done step by step: steps done by the human are those counted by the policy.
Len1 == Lengths(P)
DoneBy == IF x.h >= Clean(M) THEN Len1 ELSE (x.h - 1) % Len1
InStep == pol.done = DoneBy \/ (x.h = Final(M) /\ pol.done = DoneBy + 1)
\* All observations are expected.
Expected == phase = "choose" /\ obs # "" => LP!Meaning(pol, obs, Nx) # "unexpected"
Real == phase = "act" => Here(M, Objects, pol.last)
\* An episode takes a number of transitions of which the limit of jobs leaves a margin.
Shortest == x.h = Final(M) => n >= IF 7 + 2 * Len1 < Cap THEN 7 + 2 * Len1 ELSE Cap
Margin == P.job = "preference" => 7 + 2 * Len1 < MaxLength(P)
\* When preferences are known, help suits; when nobody else moves things, none is left.
Helps == (P.policy = "always-hold" \/ P.policy = "repeat") /\ P.ppref = ROne /\ ~ P.pchangegiven
             /\ phase = "choose" /\ pol.last = LP!HoldH => obs # "fail"
Waits == P.policy = "never-hold" /\ phase = "choose" /\ pol.last = LP!Wait => obs # "fail"
Quiet == M.pobj = RZero
Tidy == Quiet /\ x.h = Final(M) => Present(x) = 0
Equipped == Quiet /\ phase = "act" /\ pol.last \in Nx /\ x.h <= Steps(M) => Present(x) = 4
Ends == <>(x.h = Final(M))
=============================================================================
