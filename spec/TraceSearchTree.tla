-------------------------- MODULE TraceSearchTree --------------------------
(* Traces of planners: every transition that their simulations make, and the *)
(* search tree after each operation.                                         *)
EXTENDS SearchTree, Pomdp, TraceLib

\* The tree, as known exactly; the tree at the last synchronisation; the simulation;
\* the planner: current node, history, last action, belief weights and support.
VARIABLES N, seen, sim, cur, hist, last, w, X

tvars == <<N, seen, sim, cur, hist, last, w, X>>
P == Cfg.p
HasModel == "m" \in DOMAIN Cfg
M == Cfg.m
K == 10000
All == {"M01", "M02", "M03", "M04", "M05", "M06", "A01", "A02"}

TInit == /\ TraceLibInit
         /\ N = IF "p" \in DOMAIN Cfg THEN EmptyTree(P) ELSE <<>>
         /\ seen = N
         /\ sim = Idle
         /\ cur = IF "p" \in DOMAIN Cfg THEN Root(P) ELSE <<>>
         /\ hist = <<>>
         /\ last = 0
         /\ w = IF HasModel THEN Start(M) ELSE <<>>
         /\ X = IF HasModel THEN Support(M.start) ELSE {}

Do(op, act, fails) ==
    /\ IsEvent(op)
    /\ UNCHANGED tr
    /\ IF fails = {} THEN act /\ Accept
       ELSE Reject(fails) /\ UNCHANGED tvars
Query(op, fails) == Do(op, UNCHANGED tvars, fails)

------------------------------------------------------------------------------
\* Supports and weights of beliefs.
NextW(v, Y, a, o) ==
    LET Z == Succ(M, a, o, Y)
        r == IF v = <<>> \/ Z = {} THEN <<>> ELSE IF WSum(v) > 20000 THEN <<>> ELSE Bayes(M, a, o, v)
    IN IF r = <<>> THEN <<>> ELSE IF Small(r, K) THEN r ELSE <<>>
\* Knowledge after a history.
Know(h) == LET F[i \in 0..(Len(h) \div 2)] ==
        IF i = 0 THEN [w |-> Start(M), X |-> Support(M.start)]
        ELSE LET a == h[2 * i - 1]
                 o == h[2 * i]
             IN [w |-> NextW(F[i - 1].w, F[i - 1].X, a, o), X |-> Succ(M, a, o, F[i - 1].X)]
    IN F[Len(h) \div 2]
SupportOf(k) == IF P.shared THEN {Cfg.sup[k[1]][i] : i \in 1..Len(Cfg.sup[k[1]])} ELSE Know(k).X
MayBe(k, s) == HasModel => s \in SupportOf(k)
BeliefIs(b, v, Y) == IF ~ HasModel THEN TRUE ELSE
    /\ Len(b) = M.n
    /\ \A i \in 1..Len(b) : (b[i] > 0 => i \in Y)
    /\ (v # <<>> => Close(b, v, K, 2))

------------------------------------------------------------------------------
\* Comparison of the tree with what was recorded: Ev.delta lists the nodes that changed.
Near(x, y, tol) == x - y \in (-tol)..tol
Same(x, d, tol) ==
    /\ x.n = d.n
    /\ Len(d.kid) = P.na
    /\ \A a \in 1..P.na : x.kid[a].n = d.kid[a][1]
    /\ x.edge = d.edge
Values(x, d, tol) == Near(x.v, d.v, tol) /\ \A a \in 1..P.na : Near(x.kid[a].v, d.kid[a][2], tol)
DKeys(D) == {D[i].key : i \in 1..Len(D)}
Of(D, k) == D[CHOOSE i \in 1..Len(D) : D[i].key = k]
DeltaFails(T, D, tol) ==
    LET new == DKeys(D) \ DOMAIN T
        missed == {k \in DOMAIN T : k \notin DKeys(D) /\
                     \/ k \notin DOMAIN seen
                     \/ /\ k \in DOMAIN seen
                        /\ \/ T[k].n # seen[k].n \/ T[k].edge # seen[k].edge
                           \/ \E a \in 1..P.na : T[k].kid[a].n # seen[k].kid[a].n}
        both == DKeys(D) \cap DOMAIN T
    IN Must("node-from-nowhere", new = {})
       \cup Must("statistics-not-updated", missed = {})
       \cup Must("visits", \A k \in both : Same(T[k], Of(D, k), tol))
       \cup Must("values", \A k \in both : Same(T[k], Of(D, k), tol) => Values(T[k], Of(D, k), tol))
       \cup Must("duplicate-node", \A i \in 1..Len(D) : ~ D[i].dup)
       \cup Must("belief-of-node", \A i \in 1..Len(D) : D[i].key \in both =>
              LET kn == IF HasModel /\ ~ P.shared THEN Know(D[i].key) ELSE [w |-> <<>>, X |-> {}]
              IN IF P.shared THEN TRUE ELSE BeliefIs(D[i].b, kn.w, kn.X))
\* The tree with the values that were recorded.
Resync(T, D) == [k \in DOMAIN T |->
    IF k \notin DKeys(D) THEN T[k]
    ELSE LET d == Of(D, k) IN [T[k] EXCEPT !.v = d.v, !.kid = [a \in 1..P.na |-> [n |-> d.kid[a][1], v |-> d.kid[a][2]]]]]

------------------------------------------------------------------------------
TNew == IsEvent("new") /\
    Query("new", Must("planner-built", Ev.out = "ok")
        \cup For({"M05"}, Must("beliefs-told-apart", P.shared => \A k \in 1..Len(P.succ), a \in 1..P.na, o \in 1..P.no :
                LET Z == Succ(M, a, o, SupportOf(<<k>>)) IN
                /\ (P.succ[k][a][o] = 0) = (Z = {})
                /\ P.succ[k][a][o] # 0 => SupportOf(<<P.succ[k][a][o]>>) \subseteq Z)))

\* Horizons made, copied and decremented: which ones are reached after each step.
THorizon == IsEvent("horizon") /\ Query("horizon", For({"M03"},
    LET Step(H, x) == IF x.k = "fresh" THEN Append(H, HzStart(P))
                      ELSE IF x.k = "copy" THEN Append(H, H[x.i])
                      ELSE [H EXCEPT ![x.i] = Dec(P, @, x.s, x.t)]
        F[i \in 0..Len(Ev.prog)] == IF i = 0 THEN <<HzStart(P)>> ELSE Step(F[i - 1], Ev.prog[i])
    IN Must("horizon-reached", \A i \in 0..Len(Ev.prog) :
          Ev.reached[i + 1] = [j \in 1..Len(F[i]) |-> Reached(F[i][j])])))

TBegin == IsEvent("begin") /\
    LET from == IF Ev.who = "runner" THEN cur ELSE Ev.key
        n == IF Ev.iters = -1 THEN Cfg.iters ELSE Ev.iters
    IN Do("begin", /\ sim' = IF n = 0 THEN Idle ELSE Fresh(P, from, Ev.forced, n)
                   /\ UNCHANGED <<N, seen, cur, hist, last, w, X>>,
          Must("node-unknown", from \in DOMAIN N))

TCall == IsEvent("call") /\
    IF ~ Running(sim) THEN Query("call", {"transition-after-horizon"})
    ELSE LET r == After(P, N, sim, Ev) IN
    Do("call", N' = r.N /\ sim' = r.sim /\ UNCHANGED <<seen, cur, hist, last, w, X>>,
       Must("state-of-simulation", IF sim.s = NoState THEN MayBe(sim.key, Ev.s) ELSE Ev.s = sim.s)
       \cup Must("forced-action", sim.mode = "tree" /\ sim.path = <<>> /\ sim.forced > 0 => Ev.a = sim.forced)
       \cup For({"M02"}, Must("explored-action", Ev.a \in Choices(P, N, sim)))
       \cup Must("observation-unknown", (sim.mode = "tree" /\ P.shared) =>
                  sim.key[1] <= Len(P.succ) /\ P.succ[sim.key[1]][Ev.a][Ev.o] # 0))

TEnd == IsEvent("end") /\
    IF Running(sim) THEN Query("end", {"transitions-missing"})
    ELSE Do("end", /\ N' = Resync(N, Ev.delta)
                   /\ seen' = N'
                   /\ UNCHANGED <<sim, cur, hist, last, w, X>>,
            DeltaFails(N, Ev.delta, 4 + 2 * Ev.sims))

TAct == IsEvent("act") /\
    Do("act", last' = Ev.a /\ UNCHANGED <<N, seen, sim, cur, hist, w, X>>,
       Must("action-given", Ev.out = "ok" /\ Ev.a \in 1..P.na)
       \cup For({"M02"}, Must("best-action", Ev.a \in Exploited(P, N, cur, 2))))

\* The actions that may be given without further planning.
TChoices == IsEvent("choices") /\ Query("choices", For({"M02"},
    Must("some-unexplored-action-impossible",
         Unexplored(P, N, cur) # {} => {Ev.acts[i] : i \in 1..Len(Ev.acts)} = Unexplored(P, N, cur))
    \cup Must("best-action-of-choices",
               {Ev.acts[i] : i \in 1..Len(Ev.acts)} \subseteq Exploited(P, N, cur, 2))))

\* The node of a (possible) history, asked for directly.
TNode == IsEvent("node") /\
    LET h == Ev.hist
        T[i \in 0..(Len(h) \div 2)] ==
            IF i = 0 THEN N
            ELSE LET k == SubSeq(h, 1, 2 * i - 2)
                     a == h[2 * i - 1]
                     o == h[2 * i]
                 IN IF HasEdge(T[i - 1], k, a, o) THEN T[i - 1] ELSE Grow(P, T[i - 1], k, a, o)
        U == T[Len(h) \div 2]
        kn == Know(h)
    IN Do("node", N' = U /\ seen' = U /\ UNCHANGED <<sim, cur, hist, last, w, X>>,
          For({"M04"}, Must("node-of-history", Ev.out = "ok")
                       \cup Must("belief-of-history", Ev.out = "ok" => BeliefIs(Ev.b, kn.w, kn.X)))
          \cup DeltaFails(U, Ev.delta, 2))

\* Can observation o follow the last action?  (decided by the outcome for particles)
TStep == IsEvent("step") /\
    LET ok == /\ last > 0 /\ Ev.o > 0
              /\ IF HasModel THEN Succ(M, last, Ev.o, X) # {}
                 ELSE HasEdge(N, cur, last, Ev.o) \/ Ev.out = "ok"
        known == ok /\ (P.shared => cur[1] <= Len(P.succ) /\ P.succ[cur[1]][last][Ev.o] # 0)
        T == IF known /\ ~ HasEdge(N, cur, last, Ev.o) THEN Grow(P, N, cur, last, Ev.o) ELSE N
        fine == known /\ Ev.out = "ok"
    IN Do("step",
          IF fine THEN /\ N' = Resync(T, Ev.delta) /\ seen' = N'
                       /\ cur' = Child(P, cur, last, Ev.o, T[cur].edge[last][Ev.o])
                       /\ hist' = hist \o <<last, Ev.o>>
                       /\ IF HasModel THEN w' = NextW(w, X, last, Ev.o) /\ X' = Succ(M, last, Ev.o, X)
                          ELSE UNCHANGED <<w, X>>
                       /\ UNCHANGED <<sim, last>>
          ELSE UNCHANGED tvars,
          For({"M04", "A02"}, IF ok THEN Must("possible-step-refused", Ev.out = "ok")
                       ELSE Must("impossible-step-accepted", Ev.out # "ok"))
          \cup DeltaFails(IF fine THEN T ELSE N, Ev.delta, 2))

TReset == IsEvent("reset") /\
    Do("reset", /\ cur' = Root(P) /\ hist' = <<>> /\ last' = 0
                /\ w' = (IF HasModel THEN Start(M) ELSE w)
                /\ X' = (IF HasModel THEN Support(M.start) ELSE X)
                /\ UNCHANGED <<N, seen, sim>>,
       For({"M04", "A02"}, Must("reset-outcome", Ev.out = "ok"))
       \cup DeltaFails(N, Ev.delta, 2))

TPeek == IsEvent("peek") /\ Query("peek", For({"M04", "A02"},
    Must("belief-of-planner", BeliefIs(Ev.b, w, X)) \cup Must("history-of-planner", Ev.hist = hist)))

TRefuse == IsEvent("refuse") /\ Query("refuse", For({Ev.prop},
    Must("bad-parameters-accepted", Ev.out = "ValueError")))

------------------------------------------------------------------------------
\* Exports.  Positions of actions and observations are exported; b is the exported
\* belief and raw the belief of the node.
Distinct(l) == Cardinality({l[i] : i \in 1..Len(l)}) = Len(l)
SetOf(l) == {l[i] : i \in 1..Len(l)}
SumTo(n, f(_)) == SumOver(n, f)
BeliefField(t, k) ==
    IF Ev.quotient
    THEN LET d == P.div IN \A h \in 1..Len(t.b) :
            Near(t.b[h], SumTo(d, LAMBDA i : t.raw[(h - 1) * d + i]), d + 1)
    ELSE /\ Len(t.b) = Len(t.raw) /\ \A i \in 1..Len(t.b) : Near(t.b[i], t.raw[i], 1)
         /\ (HasModel /\ ~ P.shared) => LET kn == Know(k) IN BeliefIs(t.b, kn.w, kn.X)
EdgesOf(k, a) == {o \in 1..P.no : HasEdge(N, k, a, o)}
Stat(t, x) == t.visits = x.n /\ Near(t.value, x.v, 2)

\* Both return [ok, vis] where vis are the nodes described so far (shared trees only).
RECURSIVE ValueTree(_, _, _)
ValueTree(t, k, vis) ==
    LET here == Stat(t, N[k]) /\ BeliefField(t, k)
    IN IF P.shared /\ k \in vis THEN [ok |-> here /\ t.kids = <<>>, vis |-> vis]
       ELSE
       LET acts == [i \in 1..Len(t.kids) |-> t.kids[i].a]
           must == {a \in 1..P.na : N[k].kid[a].n > 0 \/ EdgesOf(k, a) # {}}
           KidOk(x) == /\ Stat(x, N[k].kid[x.a]) /\ Distinct(x.obs) /\ SetOf(x.obs) = EdgesOf(k, x.a)
                       /\ Len(x.obs) = Len(x.children)
           okk == /\ \A i \in 1..Len(acts) : acts[i] \in 1..P.na /\ (i > 1 => acts[i - 1] < acts[i])
                  /\ must \subseteq SetOf(acts)
                  /\ \A i \in 1..Len(t.kids) : KidOk(t.kids[i])
           C[i \in 0..Len(t.kids)] ==
               IF i = 0 THEN [ok |-> TRUE, vis |-> vis \cup {k}]
               ELSE LET x == t.kids[i]
                        D[j \in 0..Len(x.children)] ==
                            IF j = 0 THEN C[i - 1]
                            ELSE LET p == D[j - 1]
                                     q == ValueTree(x.children[j],
                                            Child(P, k, x.a, x.obs[j], N[k].edge[x.a][x.obs[j]]), p.vis)
                                 IN [ok |-> p.ok /\ q.ok, vis |-> q.vis]
                    IN D[Len(x.children)]
       IN IF ~ (here /\ okk) THEN [ok |-> FALSE, vis |-> vis] ELSE C[Len(t.kids)]

RECURSIVE PolicyTree(_, _, _, _)
PolicyTree(t, k, vis, pos) ==
    LET x == N[k]
        here == /\ Stat(t, x) /\ BeliefField(t, k) /\ t.observed = pos
                /\ t.a \in Exploited(P, N, k, 2)
                /\ Len(t.values) = P.na /\ Len(t.terms) = P.na
                /\ t.visited = [a \in 1..P.na |-> x.kid[a].n]
                /\ \A a \in 1..P.na :
                     IF x.kid[a].n = 0 THEN ~ t.values[a].d /\ ~ t.terms[a].d
                     ELSE /\ t.values[a].d /\ Near(t.values[a].x, x.kid[a].v, 2)
                          /\ t.terms[a].d /\ Near(t.terms[a].x, Bonus(x.n, x.kid[a].n), 3)
    IN IF P.shared /\ k \in vis THEN [ok |-> here /\ t.children = <<>>, vis |-> vis]
       ELSE IF ~ (here /\ Distinct(t.obs) /\ SetOf(t.obs) = EdgesOf(k, t.a) /\ Len(t.children) = Len(t.obs))
       THEN [ok |-> FALSE, vis |-> vis]
       ELSE LET D[j \in 0..Len(t.children)] ==
                    IF j = 0 THEN [ok |-> TRUE, vis |-> vis \cup {k}]
                    ELSE LET p == D[j - 1]
                             q == PolicyTree(t.children[j],
                                    Child(P, k, t.a, t.obs[j], x.edge[t.a][t.obs[j]]), p.vis, j)
                         IN [ok |-> p.ok /\ q.ok, vis |-> q.vis]
            IN D[Len(t.children)]

TreeOk == IF Ev.policy THEN PolicyTree(Ev.tree, Root(P), {}, 0).ok
          ELSE ValueTree(Ev.tree, Root(P), {}).ok

TExport == IsEvent("export") /\ Query("export",
    For({"M05"}, Must("exported-shared-tree", (P.shared /\ Ev.out = "ok") => TreeOk))
    \cup For({"M06"},
    Must("export-outcome", Ev.out = "ok")
    \cup (IF Ev.out # "ok" THEN {} ELSE
          Must("exported-tree", TreeOk)
          \cup Must("exported-names", Ev.names)
          \cup Must("exported-parameters", Ev.parameters)))
    \cup DeltaFails(N, Ev.delta, 2))

TCrash == \/ Query("crash", {"unexpected-exception"})
          \/ Query("hang", {"does-not-terminate"})

TNext == \/ TNew \/ TBegin \/ TCall \/ TEnd \/ TAct \/ TStep \/ TReset \/ TPeek \/ TChoices \/ TNode \/ THorizon \/ TRefuse \/ TExport
         \/ TCrash \/ (Finish /\ UNCHANGED tvars)
TSpec == TInit /\ [][TNext]_<<N, seen, sim, cur, hist, last, w, X, tr, ln>>
=============================================================================
