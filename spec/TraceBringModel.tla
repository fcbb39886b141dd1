-------------------------- MODULE TraceBringModel --------------------------
EXTENDS BringModel, TraceLib

M == WithPaths(Cfg.m)
StateName(s) == IF s = 0 THEN "end" ELSE "before-" \o Cfg.rx[s]
ActionName(a) == a[1] \o "-" \o a[2]
Column(s) == CHOOSE j \in 1..Len(Cfg.states) : Cfg.states[j] = StateName(s)
ActionOf(m, name) == CHOOSE a \in Actions(m) : ActionName(a) = name
Once(name, seq) == Cardinality({i \in 1..Len(seq) : seq[i] = name}) = 1

Query(op, fails) == IsEvent(op) /\ UNCHANGED tr
                    /\ IF fails = {} THEN Accept ELSE Reject(fails)

TMade == IsEvent("made") /\ Query("made",
    IF Ev.out # "ok" THEN {"conversion-outcome"} ELSE
    LET m == M IN
    For({"B01", "B02", "B03"},
      Must("expanded-task", Ev.nopar \/ Expanded(Cfg.orig, m.tree))
      \cup Must("states", /\ Len(Cfg.states) = Cardinality(States(m))
                          /\ \A s \in States(m) : Once(StateName(s), Cfg.states))
      \cup Must("actions", /\ Len(Ev.actions) = Cardinality(Actions(m))
                           /\ \A a \in Actions(m) : Once(ActionName(a), Ev.actions))
      \cup Must("observations", Ev.observations = Observations))
    \cup For({"B01", "B03"}, Must("discount", Ev.discount = Cfg.discount)))

RowOk(m, row, d) == \A s \in States(m) :
    row[Column(s)] = IF s \in DOMAIN d THEN d[s] ELSE RZero

TStart == IsEvent("start") /\ LET m == M IN
    Query("start", For({"B01"}, Must("start", RowOk(m, Ev.row, Start(m)))))
TTrans == IsEvent("T") /\ LET m == M
                              a == ActionOf(m, Ev.a) IN
    Query("T", For({"B01"},
       Must("transitions-before-leaves", \A s \in States(m) \ {0} :
              RowOk(m, Ev.rows[Column(s)], Trans(m, a, s)))
       \cup Must("transitions-of-end", RowOk(m, Ev.rows[Column(0)], Trans(m, a, 0)))))
TObs == IsEvent("O") /\ LET m == M
                            a == ActionOf(m, Ev.a) IN
    Query("O", For({"B02"},
       Must("observations", \A s \in States(m) : LET d == Obs(m, a, s) IN
              \A j \in 1..Len(Observations) :
                 Ev.rows[Column(s)][j] = IF Observations[j] \in DOMAIN d
                                         THEN d[Observations[j]] ELSE RZero)))
TCost == IsEvent("R") /\ LET m == M
                             a == ActionOf(m, Ev.a) IN
    Query("R", For({"B03"},
       Must("costs", \A s, n \in States(m) : Ev.cost[Column(s)][Column(n)] = Cost(m, a, s, n))))

\* Towers: the orders of the parts.
TTower == IsEvent("tower") /\ Query("tower", For({"B04"},
    LET h == Ev.height
        n == Ev.n
        Vertical == [i \in 1..(h * n) |-> i - 1]
        \* part number j (from 0) of the horizontal order: tower j % n, level j \div n
        Horizontal == [i \in 1..(h * n) |-> ((i - 1) % n) * h + ((i - 1) \div n)]
    IN Must("tower-outcome", Ev.out = "ok")
       \cup (IF Ev.out # "ok" THEN {} ELSE
             Must("parts", Range(Ev.parts) = {ToString(i) : i \in 0..(h * n - 1)}
                           /\ Len(Ev.parts) = h * n)
             \cup Must("vertical", Ev.v = Vertical)
             \cup Must("horizontal", Ev.h = Horizontal))))
\* Sequence without a name: actions are named after their parts.
TPlain == IsEvent("plain") /\ Query("plain", For({"B04"},
    LET names == [j \in 1..Len(Ev.order) |-> ToString(Ev.order[j])] IN
    Must("orders-outcome", Ev.out = "ok")
    \cup Must("sequences", Ev.k = "Sequential" /\ Ev.objs = names)
    \cup Must("names", Ev.names = names)))
TOrders == IsEvent("orders") /\ Query("orders", For({"B04"},
    Must("orders-outcome", Ev.out = "ok")
    \cup (IF Ev.out # "ok" THEN {} ELSE
          Must("one-sequence-per-order", Ev.k = "Alternative" /\ Len(Ev.seqs) = Len(Ev.orders))
          \cup Must("sequences", \A i \in 1..Len(Ev.orders) :
                 /\ Ev.seqs[i].k = "Sequential"
                 /\ Ev.seqs[i].objs = [j \in 1..Len(Ev.orders[i]) |-> ToString(Ev.orders[i][j])])
          \cup Must("names", \A i \in 1..Len(Ev.orders) :
                 /\ Ev.seqs[i].name = Ev.names[i]
                 /\ Unique(Ev.seqs[i].leaves))
          \cup Must("leaf-names", Unique(Ev.leaves)))))

TCrash == \/ Query("crash", {"unexpected-exception"})
          \/ Query("hang", {"does-not-terminate"})

TNext == TMade \/ TStart \/ TTrans \/ TObs \/ TCost \/ TTower \/ TPlain \/ TOrders \/ TCrash \/ Finish
TSpec == TraceLibInit /\ [][TNext]_<<tr, ln>>
=============================================================================
