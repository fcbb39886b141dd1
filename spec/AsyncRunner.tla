---------------------------- MODULE AsyncRunner -----------------------------
(***************************************************************************)
(* A planner which explores in the background: a thread that repeats       *)
(* simulations from a target (node, action), and a caller that decides,    *)
(* steps, resets, executes functions and stops, each in critical sections. *)
(* Nodes are numbers; 0 is the root and the node after n is Next(n).       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxNode, Actions, MaxOps
VARIABLES
    lock,    \* "free", "bg" or "main"
    bg,      \* "idle", "sim", "over", "out", "ended": state of the background thread
    main,    \* "idle" or what the caller is doing
    todo,    \* critical sections that the caller still has to go through
    target,  \* <<node, action>> of the thread (action 0: free choice)
    done,    \* the thread has to stop
    cur, last,       \* node of the history, and chosen action
    aim,     \* target of the simulation under way
    started, finished,   \* simulations of the thread
    ops, stopped, joining,
    old, new \* (ghosts) target before and after the current or last call

vars == <<lock, bg, main, todo, target, done, cur, last, aim, started, finished, ops, stopped, joining, old, new>>

Init == /\ lock = "free" /\ bg = "idle" /\ main = "idle" /\ todo = <<>>
        /\ target = <<0, 0>> /\ done = FALSE /\ cur = 0 /\ last = 0 /\ aim = <<0, 0>>
        /\ started = 0 /\ finished = 0 /\ ops = 0 /\ stopped = FALSE /\ joining = FALSE
        /\ old = <<0, 0>> /\ new = <<0, 0>>

\* -- Background thread
BgEnter == /\ bg = "idle" /\ lock = "free" /\ lock' = "bg" /\ bg' = "sim"
           /\ aim' = target /\ started' = (started + 1) % 3
           /\ UNCHANGED <<main, todo, target, done, cur, last, finished, ops, stopped, joining, old, new>>
BgSimulate == /\ bg = "sim" /\ bg' = "over" /\ finished' = (finished + 1) % 3
              /\ UNCHANGED <<lock, main, todo, target, done, cur, last, aim, started, ops, stopped, joining, old, new>>
\* The flag is read before the lock is released.
BgLeave == /\ bg = "over" /\ lock' = "free" /\ bg' = IF done THEN "ended" ELSE "idle"
           /\ UNCHANGED <<main, todo, target, done, cur, last, aim, started, finished, ops, stopped, joining, old, new>>
Bg == BgEnter \/ BgSimulate \/ BgLeave

\* -- Caller: op is a sequence of critical sections.
Call(op, secs, goal) == /\ main = "idle" /\ ops < MaxOps /\ main' = op /\ todo' = secs /\ ops' = ops + 1
                        /\ old' = target /\ new' = goal
Get == /\ ~ joining /\ \E a \in Actions : Call("get", << <<"decide", a>>, <<"action", a>> >>, <<cur, a>>)
       /\ UNCHANGED <<lock, bg, target, done, cur, last, aim, started, finished, stopped, joining>>
Step == /\ last # 0 /\ cur < MaxNode /\ \E ok \in BOOLEAN :
             Call("step", IF ok THEN << <<"move", cur + 1>>, <<"node", cur + 1>> >> ELSE << <<"fail", 0>> >>,
                  IF ok THEN <<cur + 1, 0>> ELSE target)
        /\ UNCHANGED <<lock, bg, target, done, cur, last, aim, started, finished, stopped, joining>>
\* The history is reset at once, then the thread is told.
Reset == /\ Call("reset", << <<"node", 0>> >>, <<0, 0>>) /\ cur' = 0 /\ last' = 0
         /\ UNCHANGED <<lock, bg, target, done, aim, started, finished, stopped, joining>>
Exec == /\ Call("exec", << <<"fun", 0>> >>, target)
        /\ UNCHANGED <<lock, bg, target, done, cur, last, aim, started, finished, stopped, joining>>
Stop == /\ Call("stop", << <<"done", 0>> >>, target)
        /\ UNCHANGED <<lock, bg, target, done, cur, last, aim, started, finished, stopped, joining>>

Enter == /\ main # "idle" /\ ~ joining /\ todo # <<>> /\ lock = "free" /\ lock' = "main"
         /\ UNCHANGED <<bg, main, todo, target, done, cur, last, aim, started, finished, ops, stopped, joining, old, new>>
Section == /\ lock = "main" /\ todo # <<>>
           /\ LET x == Head(todo) IN
              /\ target' = CASE x[1] = "action" -> <<target[1], x[2]>>
                             [] x[1] = "node" -> <<x[2], 0>>
                             [] OTHER -> target
              /\ done' = (done \/ x[1] = "done")
              /\ cur' = IF x[1] = "move" THEN x[2] ELSE cur
              /\ last' = IF x[1] = "decide" THEN x[2] ELSE last
              \* after a step the last action remains known
           /\ todo' = Tail(todo) /\ lock' = "free"
           /\ joining' = (main = "stop" /\ Len(todo) = 1)
           /\ main' = IF Len(todo) = 1 /\ main # "stop" THEN "idle" ELSE main
           /\ UNCHANGED <<bg, aim, started, finished, ops, stopped, old, new>>
Join == /\ joining /\ bg = "ended" /\ joining' = FALSE /\ main' = "idle" /\ stopped' = TRUE
        /\ UNCHANGED <<lock, bg, todo, target, done, cur, last, aim, started, finished, ops, old, new>>
Main == Enter \/ Section \/ Join
NextA == Bg \/ Main \/ Get \/ Step \/ Reset \/ Exec \/ Stop
Spec == Init /\ [][NextA]_vars
             /\ SF_vars(BgEnter) /\ WF_vars(BgSimulate) /\ WF_vars(BgLeave)
             /\ SF_vars(Enter) /\ WF_vars(Section) /\ WF_vars(Join)

\* -- What must hold.
Exclusive == /\ (bg \in {"sim", "over"}) <=> lock = "bg"
             /\ lock = "main" => bg \notin {"sim", "over"}
\* Between calls the target is that of the last call; a simulation under way has it as
\* target, or that of before when it was started earlier; nothing else during a call.
Between == main = "idle" => target = new /\ target[1] = cur
During == target \in {old, new}
Aims == bg = "sim" => aim \in {old, new} /\ (main = "idle" => aim = new)
NoMix == target[1] # cur => main \in {"step", "reset"}
AfterStop == stopped => bg = "ended"
StopEnds == [](main = "stop" => <>(main = "idle"))
CallsEnd == [](main # "idle" => <>(main = "idle"))
Explores == []<>(bg = "sim") \/ <>[](bg = "ended")
=============================================================================
