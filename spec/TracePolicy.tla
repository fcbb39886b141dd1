---------------------------- MODULE TracePolicy ----------------------------
(* Traces of policies: their runners, their files, and what is built from    *)
(* them.  Names of actions and observations are recorded as their numbers.   *)
EXTENDS PolicyGraph, TraceLib

\* cur: the nodes in which the runner may be; ini: possible initial nodes;
\* w, X: the belief and its support (belief runners only).
VARIABLES cur, ini, w, X

vars == <<cur, ini, w, X>>
G == Cfg.g
M == Cfg.m
K == 10000
Tol == 2

TInit == /\ TraceLibInit
         /\ ini = {}
         /\ cur = {}
         /\ w = <<>>
         /\ X = {}

Do(op, act, fails) ==
    /\ IsEvent(op)
    /\ UNCHANGED tr
    /\ IF fails = {} THEN act /\ Accept
       ELSE Reject(fails) /\ UNCHANGED vars
Query(op, fails) == Do(op, UNCHANGED vars, fails)

------------------------------------------------------------------------------
\* Runners which only follow the graph.
TNew == IsEvent("new") /\
    LET c == IF Ev.init > 0 THEN {Ev.init} ELSE BestNodes(G, Ev.start) IN
    Do("new", ini' = c /\ cur' = c /\ UNCHANGED <<w, X>>,
       Must("policy-built", Ev.out = "ok"))

TAction == IsEvent("action") /\
    LET c == {n \in cur : G.actions[n] = Ev.a} IN
    Do("action", cur' = c /\ UNCHANGED <<ini, w, X>>,
       For({"P04"}, Must("action-of-node", Ev.out = "ok" /\ c # {})))

TStep == IsEvent("step") /\
    LET fail == IF Ev.o = 0 THEN cur ELSE {n \in cur : G.trans[n][Ev.o] = 0}
        succ == {G.trans[n][Ev.o] : n \in cur \ fail}
    IN Do("step",
          cur' = (IF Ev.out = "ok" THEN succ ELSE fail) /\ UNCHANGED <<ini, w, X>>,
          For({"P04"},
              IF Ev.out = "ok" THEN Must("missing-transition-followed", succ # {})
              ELSE Must("existing-transition-refused", fail # {})
                   \cup Must("dedicated-error", Ev.o > 0 => Ev.out = "Impossible")))

TReset == IsEvent("reset") /\
    LET c == IF Ev.given THEN BestNodes(G, Ev.w) ELSE ini IN
    Do("reset", cur' = c /\ UNCHANGED <<ini, w, X>>, For({"P04"}, Must("reset", Ev.out = "ok")))

\* Queries of the policy itself.
TBest == IsEvent("best") /\
    Query("best", For({"P04"}, Must("node-from-belief", Ev.node \in BestNodes(G, Ev.w))))

------------------------------------------------------------------------------
\* Runners which follow the belief.
Nodes0 == 1..Len(G.actions)
NodesFor(v) == IF v = <<>> THEN Nodes0 ELSE BestNodes(G, v)
\* A state of knowledge is a pair of weights (or <<>>) and a support.
NextW(v, Y, a, o) ==
    LET Z == Succ(M, a, o, Y)
        r == IF v = <<>> \/ Z = {} THEN <<>> ELSE IF WSum(v) > 20000 THEN <<>> ELSE Bayes(M, a, o, v)
    IN IF r = <<>> THEN <<>> ELSE IF Small(r, K) THEN r ELSE <<>>
BeliefOk(b, v, Y) == /\ Len(b) = M.n
                     /\ \A i \in 1..Len(b) : b[i] > 0 => i \in Y
                     /\ v # <<>> => Close(b, v, K, Tol)

BeliefReset == w' = Start(M) /\ X' = Support(M.start) /\ UNCHANGED <<cur, ini>>
TBNew == IsEvent("bnew") /\ Do("bnew", BeliefReset, Must("runner-built", Ev.out = "ok"))
TBReset == IsEvent("breset") /\
    Do("breset",
       IF Ev.given THEN w' = Reduce(Ev.w) /\ X' = Support(Ev.w) /\ UNCHANGED <<cur, ini>> ELSE BeliefReset,
       For({"P04"}, Must("reset", Ev.out = "ok")))
TBPeek == IsEvent("bpeek") /\
    Query("bpeek", For({"P04"},
        Must("belief-of-runner", BeliefOk(Ev.b, w, X))
        \cup Must("best-node-followed", Ev.node \in NodesFor(w))
        \cup Must("action-of-node", Ev.node \in Nodes0 => Ev.a = G.actions[Ev.node])))
TBStep == IsEvent("bstep") /\
    LET Y == IF Ev.o = 0 THEN {} ELSE Succ(M, Ev.a, Ev.o, X) IN
    Do("bstep",
       IF Ev.out = "ok" THEN X' = Y /\ w' = NextW(w, X, Ev.a, Ev.o) /\ UNCHANGED <<cur, ini>>
       ELSE UNCHANGED vars,
       For({"P04"},
           Must("action-of-best-node", \E n \in NodesFor(w) : G.actions[n] = Ev.a)
           \cup IF Ev.o = 0 THEN Must("unknown-observation", Ev.out # "ok")
              ELSE IF Y = {} THEN Must("impossible-observation", Ev.out = "Impossible")
              ELSE Must("possible-observation", Ev.out = "ok")))

------------------------------------------------------------------------------
\* Trees of trajectories.
RECURSIVE TreeOk(_, _, _, _)
TreeOk(t, v, Y, h) ==
    /\ BeliefOk(t.b, v, Y)
    /\ t.node \in NodesFor(v)
    /\ t.a = G.actions[t.node]
    /\ Len(t.obs) = Len(t.children)
    /\ t.obs = SelectSeq([i \in 1..NObs(G) |-> i],
                         LAMBDA o : h > 0 /\ Succ(M, t.a, o, Y) # {})
    /\ \A i \in 1..Len(t.obs) :
          TreeOk(t.children[i], NextW(v, Y, t.a, t.obs[i]), Succ(M, t.a, t.obs[i], Y), h - 1)
TTraj == IsEvent("traj") /\
    Query("traj", For({"P06"}, Must("trajectory-outcome", Ev.out = "ok")
        \cup IF Ev.out # "ok" THEN {} ELSE Must("trajectory-tree", TreeOk(Ev.tree, w, X, Ev.h))))

Point(s) == [i \in 1..M.n |-> IF i = s THEN 1 ELSE 0]
TStartTrees == IsEvent("startTrees") /\
    Query("startTrees", For({"P06"}, Must("trees-outcome", Ev.out = "ok")
        \cup IF Ev.out # "ok" THEN {} ELSE
            Must("one-tree-per-start", Len(Ev.trees) = Len(Ev.starts)) \cup
            Must("trees-from-starts", \A i \in 1..Len(Ev.trees) : i <= Len(Ev.starts) =>
                    TreeOk(Ev.trees[i], Point(Ev.starts[i]), {Ev.starts[i]}, Ev.h))))

\* Graph of beliefs.  Ev.beliefs[i] are scaled by VK, Ev.sup[i] lists non null entries.
VK == 5000
Post(b, a, o) == Weights(M, a, o, b)
Dist2(x, y) == SumOver(Len(x), LAMBDA i : (x[i] - y[i]) * (x[i] - y[i]))
Near(x, y, d) == Dist2(x, y) <= d * d
MaxValue(v, b) == LET D(n) == Dot(v[n], b) IN {n \in 1..Len(v) :
    \A j \in 1..Len(v) : D(j) - D(n) <= Len(b) * 200 }
TVisit == IsEvent("visit") /\
    Query("visit", For({"P06"}, Must("visit-outcome", Ev.out = "ok")
      \cup IF Ev.out # "ok" THEN {} ELSE
      LET N == Len(Ev.beliefs)
          Sup(i) == {Ev.sup[i][j] : j \in 1..Len(Ev.sup[i])}
          Poss(i, o) == Succ(M, Ev.actions[i], o, Sup(i)) # {}
          Exp(i) == \E o \in 1..NObs(G) : Ev.trans[i][o] # 0
          \* posterior of a node for a possible observation
          PK == [i \in 1..N |-> [o \in 1..NObs(G) |->
                   LET p == Post(Ev.beliefs[i], Ev.actions[i], o) IN
                   IF Ev.trans[i][o] = 0 \/ WSum(p) = 0 THEN <<>> ELSE Scaled(Reduce(p), VK)]]
          \* posteriors of tiny probability are not precise enough
          Rough(i, o) == WSum(Post(Ev.beliefs[i], Ev.actions[i], o)) < 40 * M.D * M.D
      IN Must("initial-node", Ev.init = 1)
         \cup Must("first-belief-is-start", N > 0 /\ Close(Ev.beliefs[1], Start(M), VK, 1))
         \cup Must("transitions-well-formed", Len(Ev.trans) = N /\ Len(Ev.actions) = N /\
                \A i \in 1..N, o \in 1..NObs(G) : Ev.trans[i][o] \in 0..N)
         \cup Must("distinct-beliefs", \A i, j \in 1..N : i < j => ~ Near(Ev.beliefs[i], Ev.beliefs[j], 46))
         \cup Must("actions-of-beliefs", \A i \in 1..N : \E n \in MaxValue(G.values, Ev.beliefs[i]) :
                G.actions[n] = Ev.actions[i])
         \cup Must("all-expanded", N <= Ev.max => \A i \in 1..N : Exp(i))
         \cup Must("expanded-first", \A i, j \in 1..N : i < j /\ Exp(j) => Exp(i))
         \cup Must("stops-at-maximum", N <= Ev.max + NObs(G))
         \cup Must("one-transition-per-possible-observation", \A i \in 1..N : Exp(i) =>
                \A o \in 1..NObs(G) : (Ev.trans[i][o] # 0) = Poss(i, o))
         \cup Must("transition-to-posterior", \A i \in 1..N, o \in 1..NObs(G) :
                PK[i][o] # <<>> /\ ~ Rough(i, o) => Near(PK[i][o], Ev.beliefs[Ev.trans[i][o]], 57))
         \cup Must("nodes-are-posteriors", \A j \in 2..N : \E i \in 1..N, o \in 1..NObs(G) :
                Ev.trans[i][o] = j /\ (Rough(i, o) \/ PK[i][o] = <<>> \/ Near(PK[i][o], Ev.beliefs[j], 12)))))

------------------------------------------------------------------------------
\* Files.
Ok(x) == x = "ok"
TParseAlpha == IsEvent("parseAlpha") /\
    Query("parseAlpha", For({"P05"},
      IF AlphaOk(Ev.lines)
      THEN Must("value-function-refused", Ok(Ev.out)) \cup
           (IF Ok(Ev.out) THEN Must("value-function-actions", Ev.actions = AlphaActions(Ev.lines))
                               \cup Must("value-function-vectors", Ev.vectors = AlphaVectors(Ev.lines))
            ELSE {})
      ELSE Must("defective-value-function-accepted", ~ Ok(Ev.out))))
TParsePg == IsEvent("parsePg") /\
    Query("parsePg", For({"P05"},
      IF PgOk(Ev.lines)
      THEN Must("policy-graph-refused", Ok(Ev.out)) \cup
           (IF Ok(Ev.out) THEN Must("policy-graph-actions", Ev.actions = PgActions(Ev.lines))
                               \cup Must("policy-graph-transitions", Ev.trans = PgTrans(Ev.lines))
            ELSE {})
      ELSE Must("defective-policy-graph-accepted", ~ Ok(Ev.out))))

\* Ev.start: weights of the start belief of the model; Ev.got: the policy.
LoadFails(e) ==
    IF ~ e.missing /\ LoadOk(e.al, e.pg, e.na, e.no, e.n)
    THEN Must("solution-refused", Ok(e.out)) \cup
         (IF ~ Ok(e.out) THEN {} ELSE
          Must("solution-actions", e.got.actions = [i \in 1..Len(AlphaActions(e.al)) |-> AlphaActions(e.al)[i] + 1])
          \cup Must("solution-values", e.got.values = AlphaVectors(e.al))
          \cup Must("solution-transitions", e.got.trans = PgTrans(e.pg))
          \cup Must("solution-names", e.got.names)
          \cup Must("solution-initial-node", e.got.init \in Best(AlphaVectors(e.al), e.start)))
    ELSE Must("defective-solution-accepted", ~ Ok(e.out))
TLoad == IsEvent("load") /\ Query("load", For({"P05"}, LoadFails(Ev)))

\* Options of the solver: Ev.opts are those asked for ("" for none), Ev.args its arguments.
ArgOf(args, o) == LET I == {i \in 1..Len(args) : args[i] = o} IN
    IF I = {} THEN "" ELSE IF Cardinality(I) > 1 THEN "?" ELSE args[(CHOOSE i \in I : TRUE) + 1]
TSolve == IsEvent("solve") /\ Query("solve", For({"P05"},
    IF Ev.solver # "ok" THEN Must("failing-solver-ignored", ~ Ok(Ev.out))
    ELSE LoadFails(Ev)
         \cup Must("model-given-to-solver", Ev.given)
         \cup Must("solver-options", \A i \in 1..Len(Ev.args) : i % 2 = 1 =>
                (Ev.args[i] \in {"-time_limit", "-horizon", "-rand_seed", "-method", "-fg_type",
                                 "-o", "-pomdp"}))
         \cup Must("solver-time-limit", ArgOf(Ev.args, "-time_limit") = Ev.opts.timeout)
         \cup Must("solver-horizon", ArgOf(Ev.args, "-horizon") = Ev.opts.horizon)
         \cup Must("solver-seed", IF Ev.opts.seed = "" THEN ArgOf(Ev.args, "-rand_seed") \notin {"", "?"}
                                  ELSE ArgOf(Ev.args, "-rand_seed") = Ev.opts.seed)
         \cup Must("solver-method", ArgOf(Ev.args, "-method") \in
                      IF Ev.opts.method = "grid" THEN {"grid"} ELSE {"", "incprune"})
         \cup Must("solver-grid-type", Ev.opts.method = "grid" =>
                      ArgOf(Ev.args, "-fg_type") = IF Ev.opts.grid = "" THEN "simplex" ELSE Ev.opts.grid)))
TPolicyJson == IsEvent("policyJson") /\ Query("policyJson", For({"P05"},
    Must("policy-json-outcome", Ok(Ev.out))
    \cup (IF ~ Ok(Ev.out) THEN {} ELSE
          Must("policy-json", Ev.loaded = Ev.policy) \cup Must("policy-json-values", Ev.exact))))

TCrash == \/ Query("crash", {"unexpected-exception"})
          \/ Query("hang", {"does-not-terminate"})

TNext == \/ TNew \/ TAction \/ TStep \/ TReset \/ TBest
         \/ TBNew \/ TBReset \/ TBPeek \/ TBStep
         \/ TTraj \/ TStartTrees \/ TVisit
         \/ TParseAlpha \/ TParsePg \/ TLoad \/ TSolve \/ TPolicyJson
         \/ TCrash \/ (Finish /\ UNCHANGED vars)
TSpec == TInit /\ [][TNext]_<<cur, ini, w, X, tr, ln>>
=============================================================================
