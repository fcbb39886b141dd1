---------------------------- MODULE MCLongPolicy ----------------------------
(* The policy with a human who does the subtasks, in a world where any       *)
(* action may fail a number of times and where objects may be brought or     *)
(* cleared by someone else.                                                  *)
EXTENDS LongPolicy, TLC
CONSTANTS Subtasks, Faults, Resets
VARIABLES pol, there, step, phase, faults, resets
vars == <<pol, there, step, phase, faults, resets>>
Objects == Tools \cup {"leg"}

Init == pol = Begin /\ there \in SUBSET {"leg", "joints"} /\ step = 0 /\ phase = "choose" /\ faults = 0 /\ resets = 0
Choose == /\ phase = "choose" /\ phase' = "act"
          /\ \E a \in Chosen(pol, Subtasks, {HoldH}) : pol' = [pol EXCEPT !.last = a]
          /\ UNCHANGED <<there, step, faults, resets>>
Observe(o) == pol' = After(pol, o, {HoldH}) /\ phase' = "choose"
Fails == /\ phase = "act" /\ faults < Faults /\ faults' = faults + 1 /\ Observe("fail")
         /\ UNCHANGED <<there, step, resets>>
Acts == /\ phase = "act" /\ UNCHANGED <<faults, resets>>
        /\ LET k == pol.last[1]
               x == pol.last[2]
           IN CASE k = "bring" -> /\ Observe(IF x \in there THEN "not-found" ELSE "none")
                                  /\ there' = there \cup {x} /\ UNCHANGED step
                [] k = "clear" -> /\ Observe(IF x \in there THEN "none" ELSE "not-found")
                                  /\ there' = there \ {x} /\ UNCHANGED step
                [] k = "hold" -> /\ Observe("none") /\ step' = step + 1 /\ there' = there \ {"leg"}
                [] k = "wait" -> /\ Observe("none") /\ step' = (IF step = Subtasks THEN step + 1 ELSE step)
                                 /\ UNCHANGED there
\* The human changes the place of an object.
Moves == /\ phase = "act" /\ faults < Faults /\ faults' = faults + 1
         /\ \E o \in Objects : there' = IF o \in there THEN there \ {o} ELSE there \cup {o}
         /\ UNCHANGED <<pol, step, phase, resets>>
Reset == /\ resets < Resets /\ resets' = resets + 1 /\ pol' = Begin /\ step' = 0 /\ phase' = "choose"
         /\ UNCHANGED <<there, faults>>
Next == Choose \/ Fails \/ Acts \/ Moves \/ Reset
Spec == Init /\ [][Next]_vars /\ WF_vars(Choose) /\ WF_vars(Acts)

TypeOK == pol.bring \subseteq Tools /\ pol.clear \subseteq Tools /\ pol.done \in 0..Subtasks
InStep == pol.done = IF step > Subtasks THEN Subtasks ELSE step
\* Tools come first and are cleared when all subtasks are done; unless somebody else moves
\* things, all that is used is there.
Order == /\ pol.done > 0 => pol.bring = {}
         /\ pol.clear # Tools => pol.done = Subtasks
Equipped == faults = 0 /\ phase = "act" /\ pol.last[1] = "hold" => Objects \subseteq there
Tidy == faults = 0 /\ step > Subtasks => there = {}
Ends == <>(step = Subtasks + 1)
=============================================================================
