--------------------------- MODULE TraceTaskModel ---------------------------
EXTENDS TaskModel, TraceLib

Tol == 3

M == WithPaths([Cfg.m EXCEPT !.exp =
        [x \in {<<y[1], y[2]>> : y \in Range(Cfg.m.exp)} |->
           (CHOOSE y \in Range(Cfg.m.exp) : <<y[1], y[2]>> = x)[3]]])

StateName(s) == IF s[1] = 0 THEN s[2] ELSE s[2] \o "-" \o Cfg.rx[s[1]]
Prefix == [phy |-> "phy", ai |-> "com-ask-intention", ti |-> "com-tell-intention",
           af |-> "com-ask-finished"]
ActionName(a) == IF a = Wait THEN "wait" ELSE Prefix[a[2]] \o "-" \o Cfg.rx[a[1]]

\* Column of each state in the recorded arrays.
Column(s) == CHOOSE j \in 1..Len(Cfg.states) : Cfg.states[j] = StateName(s)
ActionOf(m, name) == CHOOSE a \in Actions(m) : ActionName(a) = name

Once(name, seq) == Cardinality({i \in 1..Len(seq) : seq[i] = name}) = 1

Query(op, fails) == IsEvent(op) /\ UNCHANGED tr
                    /\ IF fails = {} THEN Accept ELSE Reject(fails)
ALLT == {"T01", "T02", "T03"}

TMade == IsEvent("made") /\ Query("made",
    IF Ev.out # "ok" THEN {"conversion-outcome"} ELSE
    LET m == M IN
    For(ALLT,
      Must("expanded-task", Ev.nopar \/ Expanded(Cfg.orig, m.tree))
      \cup Must("states", /\ Len(Cfg.states) = Cardinality(States(m))
                          /\ \A s \in States(m) : Once(StateName(s), Cfg.states))
      \cup Must("actions", /\ Len(Ev.actions) = Cardinality(Actions(m))
                           /\ \A a \in Actions(m) : Once(ActionName(a), Ev.actions))
      \cup Must("observations", Ev.observations = Observations(m))
      \cup Must("discount", Ev.discount = 1000)))

\* Row of probabilities d (a function from states) as recorded (scaled values by column).
RowOk(col, row, d) == \A s \in DOMAIN col :
    LET x == IF s \in DOMAIN d THEN d[s] ELSE 0
        y == row[col[s]]
    IN y - x \in (-Tol)..Tol

\* The model, the action of the event, and the column of each state, computed once.
Bound(op, Q(_, _, _)) == IsEvent(op) /\
    \E m \in {TLCEval(M)} :
    \E col \in {TLCEval([s \in States(m) |-> Column(s)])} :
    \E a \in IF op = "start" THEN {Wait} ELSE {ActionOf(m, Ev.a)} : Q(m, col, a)

TStart == Bound("start", LAMBDA m, col, a :
    Query("start", For({"T01"}, Must("start", RowOk(col, Ev.row, Scaled(Start(m), S))))))

TTrans == Bound("T", LAMBDA m, col, a :
    Query("T", For({"T01"},
       Must("transitions-of-leaves", \A s \in DOMAIN col :
              s[1] # 0 => RowOk(col, Ev.rows[col[s]], Trans(m, a, s)))
       \cup Must("transitions-of-end", \A s \in DOMAIN col :
              s[1] = 0 => RowOk(col, Ev.rows[col[s]], Trans(m, a, s))))))

TObs == Bound("O", LAMBDA m, col, a :
    Query("O", For({"T02"},
       Must("observations-of-leaves", \A s \in DOMAIN col :
              s[1] # 0 => Ev.obs[col[s]] = Obs(m, a, s))
       \cup Must("observations-of-end", \A s \in DOMAIN col :
              s[1] = 0 => Ev.obs[col[s]] = Obs(m, a, s)))))

TCost == Bound("R", LAMBDA m, col, a :
    Query("R", For({"T03"},
       Must("costs-of-leaves", \A s, n \in DOMAIN col :
              s[1] # 0 /\ CostDefined(m, a, s)
              => Ev.cost[col[s]][col[n]] = Cost(m, a, s, n))
       \cup Must("costs-of-end", \A s, n \in DOMAIN col :
              s[1] = 0 => Ev.cost[col[s]][col[n]] = Cost(m, a, s, n)))))

TCrash == \/ Query("crash", {"unexpected-exception"})
          \/ Query("hang", {"does-not-terminate"})

TNext == TMade \/ TStart \/ TTrans \/ TObs \/ TCost \/ TCrash \/ Finish
TSpec == TraceLibInit /\ [][TNext]_<<tr, ln>>
=============================================================================
