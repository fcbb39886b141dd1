-------------------------- MODULE TraceSupportive ---------------------------
EXTENDS Supportive, TaskTrees, TraceLib

\* The encoded state under test (S02): its value and that of its copy.
VARIABLES val, cop
tvars == <<val, cop>>

RatOf(x) == Rat(x[1], x[2])
M0 == Cfg.m
\* Probabilities as rationals; positions from 1.
M == [M0 EXCEPT !.pfail = RatOf(@), !.pall = RatOf(@), !.pobj = RatOf(@), !.pchange = RatOf(@),
                !.ppref = [i \in 1..Len(@) |-> RatOf(@[i])]]
D == Cfg.d

TInit == TraceLibInit /\ val = 0 /\ cop = 0

Do(op, act, fails) ==
    /\ IsEvent(op)
    /\ UNCHANGED tr
    /\ IF fails = {} THEN act /\ Accept
       ELSE Reject(fails) /\ UNCHANGED tvars
Query(op, fails) == Do(op, UNCHANGED tvars, fails)

\* A probability over 10^8.
PK == 100000000
Mil(p) == FoldLeft(LAMBDA acc, i : <<acc[1] * 10 + (acc[2] * 10) \div p[2], (acc[2] * 10) % p[2]>>,
                   <<p[1] \div p[2], p[1] % p[2]>>, <<1, 2, 3, 4, 5, 6, 7, 8>>)[1]
Near(x, y, tol) == x - y \in (-tol)..tol
Tol(exact) == IF exact THEN 4 ELSE 6000000
Distinct(l) == Cardinality(Range(l)) = Len(l)
SumWhere(l, Test(_)) == FoldLeft(LAMBDA acc, x : acc + (IF Test(x) THEN x.p ELSE 0), 0, l)
SpecWhere(l, Test(_)) == Mil(PSum(SelectSeq(l, Test)))

------------------------------------------------------------------------------
\* The model: what there is, and its names.
TModel == IsEvent("model") /\
    LET A == Actions(M)
        Name(a) == CASE a.k = "wait" -> "wait" [] a.k = "H" -> "hold H" [] a.k = "V" -> "hold V"
                     [] a.k = "ask" -> "ask hold" [] OTHER -> a.k \o " " \o Cfg.objects[a.x]
        used == UNION {{Ev.conds[i][j].name : j \in 1..Len(Ev.conds[i])} : i \in 1..Len(Ev.conds)}
        kept == UNION {{Ev.conds[i][j].name : j \in {k \in 1..Len(Ev.conds[i]) : Ev.conds[i][k].c # "C"}}
                       : i \in 1..Len(Ev.conds)}
        NodeNames == [i \in 1..Steps(M) |-> Ev.nodes[i]] \o <<"clean", "final">>
    IN Query("model",
      For({"S05"},
        Must("model-outcome", Ev.out = "ok")
        \cup (IF Ev.out # "ok" THEN {} ELSE
          Must("objects", Range(Cfg.objects) = used /\ Distinct(Cfg.objects) /\ Len(Cfg.objects) = M.nobj)
          \cup Must("clearable-objects", \A o \in 1..M.nobj : M.clear[o] = (Cfg.objects[o] \in kept))
          \cup Must("action-names", Ev.actions = [i \in 1..Len(A) |-> Name(A[i])])
          \cup Must("number-of-actions", Ev.nactions = Len(A))
          \cup Must("observation-names", Ev.observations = Observations /\ Ev.nobservations = 5)
          \cup Must("feature-names", Ev.features = <<"HTM">> \o [i \in 1..M.npref |-> Cfg.prefs[i] \o "-preference"]
                                                  \o <<"holding">> \o Cfg.objects)
          \cup Must("step-names", Ev.names = NodeNames /\ Ev.nhtm = NH(M))
          \cup Must("special-steps", Ev.clean = Steps(M) /\ Ev.final = Steps(M) + 1)
          \cup Must("number-of-states", Ev.nstates = NStates(M))
          \cup Must("state-names", Ev.nnames = -1 \/ (Ev.nnames = NStates(M) /\ Ev.distinct))
          \cup Must("final-states", \A i \in 1..Len(Ev.isfinal) :
                    Ev.isfinal[i].f = IsFinal(M, Ev.isfinal[i].s))
          \cup Must("object-of-name", \A o \in 1..M.nobj : Ev.ids[o] = o)))
      \cup For({"S01"},
        Must("model-outcome", Ev.out = "ok")
        \cup (IF Ev.out # "ok" THEN {} ELSE
          LET W == AllWalks(M, Ev.nleaves)
              E == {[i \in 1..Len(w) |-> IF w[i] = 0 THEN "" ELSE Ev.steps[w[i]]] : w \in W}
          IN Must("task-modified", Ev.tree = Ev.before)
             \cup Must("executions-missing", Executions(Ev.before) \subseteq E)
             \cup Must("executions-added", E \subseteq Executions(Ev.before))
             \cup Must("initial-steps", {Ev.steps[i] : i \in Range(M.init)} = {e[1] : e \in Executions(Ev.before)})
             \cup Must("repeated-successors", Distinct(M.init) /\ \A i \in 1..Steps(M) : Distinct(M.succs[i]))
             \cup Must("last-steps", \A i \in 1..Steps(M) : Clean(M) \in Range(M.succs[i]) => Len(M.succs[i]) = 1))))

\* The graph of steps of a tree: successors of last steps are none.
TDag == IsEvent("dag") /\
    LET m == [leaf |-> Ev.names, init |-> Ev.init,
              succs |-> [i \in 1..Len(Ev.names) |-> IF Len(Ev.succs[i]) = 0 THEN <<Len(Ev.names) + 1>> ELSE Ev.succs[i]]]
        W == AllWalks(m, Ev.nleaves)
        E == {[i \in 1..Len(w) |-> IF w[i] = 0 THEN "" ELSE Ev.names[w[i]]] : w \in W}
    IN Query("dag", For({"S01"}, Must("executions-of-graph", Ev.out = "ok" /\ E = Executions(Ev.tree))))

\* Steps that are provided.
TProvided == IsEvent("provided") /\ Query("provided", For({"S03"},
    LET p == Provided(Ev.cls) IN
    Must("provided-hold", Ev.hold = p.hold)
    \cup Must("provided-conditions", Range(Ev.conds) = Range(p.conds) /\ Len(Ev.conds) = Len(p.conds))))

------------------------------------------------------------------------------
\* Has f applied to the value of v (which is then evaluated once only).
Bind(v, f(_)) == UNION {f(x) : x \in {v}}
Coded(m) == LET l == Outcomes(m, Actions(m)[Ev.a], Decode(m, Ev.s), Ev.random) IN
    FoldLeft(LAMBDA acc, y : Append(acc, [t |-> Encode(m, y.t), o |-> y.o, r |-> y.r, p |-> y.p]), <<>>, l)
Pairs(k) == {<<k[i].t, k[i].o>> : i \in 1..Len(k)}
Three(k) == {<<k[i].t, k[i].o, k[i].r>> : i \in 1..Len(k)}
Right(enc) == {q \in Pairs(enc) : Near(SpecWhere(enc, LAMBDA z : z.t = q[1] /\ z.o = q[2]),
                                       SumWhere(Ev.outs, LAMBDA z : z.t = q[1] /\ z.o = q[2]), Tol(Ev.exact))}
TTrans == IsEvent("trans") /\ Query("trans", Bind(M, LAMBDA m : Bind(Coded(m), LAMBDA enc : Bind(Right(enc), LAMBDA right :
       For({"S03"},
          Must("transition-outcome", Ev.out = "ok")
          \cup Must("impossible-transition", Pairs(Ev.outs) \subseteq Pairs(enc))
          \cup Must("probability-of-transition", right = Pairs(enc))
          \cup Must("sum-of-probabilities", Near(SumWhere(Ev.outs, LAMBDA z : TRUE), PK, 100 + Len(Ev.outs))))
       \cup For({"S04"},
          Must("reward", {q \in Three(Ev.outs) : <<q[1], q[2]>> \in Pairs(enc)} \subseteq Three(enc)
                         /\ {q[3] : q \in Three(Ev.outs)} \subseteq {q[3] : q \in Three(enc)})
          \cup Must("distribution-of-reward", \A q \in Three(enc) : <<q[1], q[2]>> \in right =>
              Near(SpecWhere(enc, LAMBDA z : z.t = q[1] /\ z.o = q[2] /\ z.r = q[3]),
                   SumWhere(Ev.outs, LAMBDA z : z.t = q[1] /\ z.o = q[2] /\ z.r = q[3]), Tol(Ev.exact))))))))

TBad == IsEvent("bad") /\ Query("bad", For({"S03"}, Must("unknown-action", Ev.out # "ok")))

TStart == IsEvent("start") /\ Query("start", For({"S05"}, Bind(M, LAMBDA m : Bind(
        LET l == Starts(m) IN FoldLeft(LAMBDA acc, y : Append(acc, [s |-> Encode(m, y.x), p |-> y.p]), <<>>, l),
     LAMBDA enc : LET all == {enc[i].s : i \in 1..Len(enc)} IN
        Must("start-outcome", Ev.out = "ok")
        \cup Must("impossible-start", {Ev.outs[i].s : i \in 1..Len(Ev.outs)} \subseteq all)
        \cup Must("start-distribution", \A s \in all :
              Near(SpecWhere(enc, LAMBDA z : z.s = s), SumWhere(Ev.outs, LAMBDA z : z.s = s), Tol(Ev.exact)))))))

------------------------------------------------------------------------------
\* Encoded states: all features are observed after each operation.
Seen(e, v) == LET x == DecodeD(D, v) IN
    Must("integer-state", e.s = v)
    \cup Must("step-of-state", e.h = x.h)
    \cup Must("preferences-of-state", e.pr = x.pr)
    \cup Must("body-of-state", e.body = x.body)
    \cup Must("objects-of-state", e.ob = x.ob)
    \cup Must("final-state", e.final = (x.h = D.nh - 1))
    \cup Must("number-of-states", e.n = DimStates(D))
    \cup Must("dimensions", e.dims = <<D.nh, D.np, D.nb, D.no>>)
    \cup Must("text", e.text = <<>> \/ e.text = <<v, x.h>> \o x.pr \o x.body \o x.ob)
After(v) == LET x == DecodeD(D, v) IN
    EncodeD(D, CASE Ev.f = "h" -> [x EXCEPT !.h = Ev.v]
                 [] Ev.f = "pr" -> [x EXCEPT !.pr = [@ EXCEPT ![Ev.i] = Ev.v]]
                 [] Ev.f = "body" -> [x EXCEPT !.body = [@ EXCEPT ![Ev.i] = Ev.v]]
                 [] Ev.f = "ob" -> [x EXCEPT !.ob = [@ EXCEPT ![Ev.i] = Ev.v]])
SNew == IsEvent("state") /\ Do("state", val' = Ev.s /\ cop' = Ev.s,
            For({"S02"}, Seen(Ev.seen, Ev.s)))
SSet == IsEvent("set") /\ LET v == IF Ev.copy THEN cop ELSE val
                              w == After(v) IN
    Do("set", IF Ev.copy THEN cop' = w /\ UNCHANGED val ELSE val' = w /\ UNCHANGED cop,
       For({"S02"}, Seen(Ev.seen, IF Ev.copy THEN val ELSE w) \cup Seen(Ev.seenc, IF Ev.copy THEN w ELSE cop)))
SCopy == IsEvent("copy") /\ Do("copy", cop' = val /\ UNCHANGED val,
    For({"S02"}, Seen(Ev.seen, val) \cup Seen(Ev.seenc, val)))

\* Marginals of a belief with integer weights (w[i] for state i - 1).
SumStates(w, Test(_)) == LET F[i \in 0..Len(w)] == IF i = 0 THEN 0
    ELSE F[i - 1] + IF Test(DecodeD(D, i - 1)) THEN w[i] ELSE 0 IN F[Len(w)]
SQuotient == IsEvent("quotient") /\ Query("quotient", For({"S02"},
    Must("quotient-outcome", Ev.out = "ok")
    \cup Must("belief-by-step", Ev.out = "ok" =>
              Ev.steps = [h \in 1..D.nh |-> SumStates(Ev.w, LAMBDA x : x.h = h - 1)]) \* (preferences: last one first)
    \cup Must("belief-by-preference", Ev.out = "ok" =>
              Ev.prefs = [i \in 1..D.np |-> SumStates(Ev.w, LAMBDA x : x.pr[D.np + 1 - i] = 1)])
    \cup Must("belief-modified", Ev.same)))

TCrash == \/ Query("crash", {"unexpected-exception"})
          \/ Query("hang", {"does-not-terminate"})
TNext == \/ TModel \/ TDag \/ TProvided \/ TTrans \/ TBad \/ TStart \/ SNew \/ SSet \/ SCopy \/ SQuotient
         \/ TCrash \/ (Finish /\ UNCHANGED tvars)
TSpec == TInit /\ [][TNext]_<<val, cop, tr, ln>>
=============================================================================
