----------------------------- MODULE TracePomdp -----------------------------
EXTENDS Pomdp, TraceLib

\* Belief of the history (<<>> when its weights became too big), and its support.
VARIABLES w, X

K == 100000
Tol == 2
M == Cfg.m
HasModel == "m" \in DOMAIN Cfg

TInit == /\ TraceLibInit
         /\ w = IF HasModel THEN Start(M) ELSE <<>>
         /\ X = IF HasModel THEN Support(M.start) ELSE {}

Do(op, act, fails) ==
    /\ IsEvent(op)
    /\ UNCHANGED tr
    /\ IF fails = {} THEN act /\ Accept
       ELSE Reject(fails) /\ UNCHANGED <<w, X>>
Query(op, fails) == Do(op, UNCHANGED <<w, X>>, fails)

NonNull(b) == {i \in 1..Len(b) : b[i] > 0}

TUpdate == IsEvent("update") /\
    LET Y == Succ(M, Ev.a, Ev.o, X)
        v == IF w = <<>> THEN <<>> ELSE Weights(M, Ev.a, Ev.o, w)
        big == w = <<>> \/ WSum(w) > 20000
        r == IF big \/ Y = {} THEN <<>> ELSE IF WSum(v) < 0 THEN <<>> ELSE Reduce(v)
        keep == r # <<>> /\ Small(r, K)
    IN Do("update",
          IF Y = {} THEN UNCHANGED <<w, X>>
          ELSE X' = Y /\ w' = IF keep THEN r ELSE <<>>,
          For({"P01"},
            Must("arguments-changed", Ev.same)
            \cup IF Y = {} THEN Must("impossible-observation", Ev.out = "Impossible")
               ELSE Must("possible-observation", Ev.out = "ok")
                    \cup (IF Ev.out # "ok" THEN {} ELSE
                          Must("support-of-belief", NonNull(Ev.b) \subseteq Y)
                          \cup Must("belief", keep => Close(Ev.b, r, K, Tol)))))

\* Models with probabilities of different magnitudes: w is a belief at leading order.
TTiny == IsEvent("tiny") /\
    LET v == LWeights(M, Ev.a, Ev.o, w)
        possible == LTotal(v)[1] > 0
        r == IF possible THEN LReduce(v) ELSE <<>>
    IN Do("tiny", UNCHANGED X /\ w' = IF possible THEN r ELSE w,
          For({"P01"},
            Must("arguments-changed", Ev.same)
            \cup IF ~possible THEN Must("impossible-observation", Ev.out = "Impossible")
               ELSE Must("possible-observation", Ev.out = "ok")
                    \cup (IF Ev.out # "ok" THEN {} ELSE
                          Must("support-of-belief", \A i \in 1..Len(Ev.pos) : Ev.pos[i] = (r[i][1] > 0))
                          \cup Must("belief", Small(LFinite(r), K) => Close(Ev.b, LFinite(r), K, Tol)))))

TTinyStart == IsEvent("tiny_start") /\ Do("tiny_start", w' = Ev.w /\ UNCHANGED X, {})

TReset == IsEvent("reset") /\ Do("reset", w' = Start(M) /\ X' = Support(M.start), {})

TFrom == IsEvent("from") /\ LET r == Weights(M, Ev.a, Ev.o, Ev.w) IN
    Query("from", For({"P01"},
       Must("arguments-changed", Ev.same)
       \cup IF WSum(r) = 0 THEN Must("impossible-observation", Ev.out = "Impossible")
          ELSE Must("possible-observation", Ev.out = "ok")
               \cup (IF Ev.out # "ok" THEN {} ELSE Must("belief", Close(Ev.b, Reduce(r), K, Tol)))))

\* Distribution of sampled transitions: tolerance is larger when it was estimated.
PTol == IF Ev.exact THEN 2 ELSE 60000
PK == 1000000
TTrans == IsEvent("trans") /\ Query("trans", For({"P01"},
    LET P(n, o) == (PK \div (M.D * M.D)) * M.T[Ev.a][Ev.s][n] * M.O[Ev.a][n][o]
        Got(n, o) == {i \in 1..Len(Ev.outs) : Ev.outs[i].n = n /\ Ev.outs[i].o = o}
    IN Must("sampled-outcomes", \A i \in 1..Len(Ev.outs) :
                /\ Ev.outs[i].n \in 1..M.n /\ Ev.outs[i].o \in 1..Len(M.O[1][1])
                /\ P(Ev.outs[i].n, Ev.outs[i].o) > 0)
       \cup Must("sampled-distribution", \A n \in 1..M.n, o \in 1..Len(M.O[1][1]) :
                LET g == Got(n, o)
                    p == SumOver(Len(Ev.outs), LAMBDA i : IF i \in g THEN Ev.outs[i].p ELSE 0)
                IN p - P(n, o) \in (-PTol)..PTol)
       \cup Must("sampled-reward", \A i \in 1..Len(Ev.outs) :
                LET x == Ev.outs[i] IN
                x.n \in 1..M.n /\ x.o \in 1..Len(M.O[1][1]) =>
                x.r = (IF Cfg.cost THEN -1 ELSE 1) * M.R[Ev.a][Ev.s][x.n][x.o])))
TStarts == IsEvent("starts") /\ Query("starts", For({"P01"},
    Must("sampled-start", \A s \in 1..M.n :
       LET p == SumOver(Len(Ev.outs), LAMBDA i : IF Ev.outs[i].s = s THEN Ev.outs[i].p ELSE 0)
       IN p - (PK \div M.D) * M.start[s] \in (-PTol)..PTol
          /\ (M.start[s] = 0 => p = 0))))

------------------------------------------------------------------------------
\* Construction.
Count(names, n) == IF names.given THEN Len(names.l) ELSE n
Distinct(names) == names.given =>
    Cardinality({names.l[i] : i \in 1..Len(names.l)}) = Len(names.l)
ValidArgs(e) ==
    LET s == Count(e.states, e.sO[2])
        a == Count(e.actions, e.sO[1])
        o == Count(e.observations, e.sO[3])
    IN /\ e.sO = <<a, s, o>> /\ e.sT = <<a, s, s>> /\ e.sR = <<a, s, s, o>> /\ e.sStart = <<s>>
       /\ \A l \in {e.nStart, e.nT, e.nO} : \A i \in 1..Len(l) : l[i] = ROne
       /\ Distinct(e.states) /\ Distinct(e.actions) /\ Distinct(e.observations)
       /\ RLe(RZero, e.disc) /\ RLe(e.disc, ROne)
       /\ e.values \in {"reward", "cost"}
DefaultNames(names, n) == IF names.given THEN names.l ELSE [i \in 1..n |-> ToString(i - 1)]
TBuild == IsEvent("build") /\ Query("build", For({"P02"},
    IF Len(Ev.sO) = 3 /\ ValidArgs(Ev)
    THEN Must("valid-model-rejected", Ev.out = "ok")
         \cup (IF Ev.out # "ok" THEN {} ELSE
               Must("names", /\ Ev.gotStates = DefaultNames(Ev.states, Ev.sO[2])
                             /\ Ev.gotActions = DefaultNames(Ev.actions, Ev.sO[1])
                             /\ Ev.gotObservations = DefaultNames(Ev.observations, Ev.sO[3])))
    ELSE Must("invalid-model-accepted", Ev.out = "ValueError")))
TRandomize == IsEvent("randomize") /\ Query("randomize", For({"P02"},
    Must("randomized-outcome", Ev.out = "ok")
    \cup Must("randomized-sums", \A i \in 1..Len(Ev.sums) : Ev.sums[i] = ROne)
    \cup Must("randomized-positive", Ev.least > 0)
    \cup Must("randomized-valid", Ev.rebuilt = "ok")))

------------------------------------------------------------------------------
\* Files.  Ev.model are the arrays of the model, Ev.file what was read (scaled).
Abs(x) == IF x < 0 THEN -x ELSE x
RowsClose(x, y, tol) == Len(x) = Len(y) /\ \A i \in 1..Len(x) :
    Len(x[i]) = Len(y[i]) /\ \A j \in 1..Len(x[i]) : Abs(x[i][j] - y[i][j]) <= tol
Distribution(x) == WSum(x) = K /\ \A i \in 1..Len(x) : x[i] >= 0
TDump == IsEvent("dump") /\ Query("dump", For({"P03"},
    IF Ev.out # "ok" THEN {"dump-not-readable"} ELSE
    LET f == Ev.file
        m == Ev.model
    IN Must("file-names", f.states = m.states /\ f.actions = m.actions
                          /\ f.observations = m.observations)
       \cup Must("file-discount", f.discount = m.discount)
       \cup Must("file-start", RowsClose(<<f.start>>, <<m.start>>, Len(m.start)))
       \cup Must("file-transitions", RowsClose(f.T, m.T, Len(m.start)))
       \cup Must("file-observations", RowsClose(f.O, m.O, Len(m.O[1])))
       \cup Must("file-rewards", RowsClose(f.R, m.R, Len(m.O[1])))
       \cup Must("file-distributions", /\ Distribution(f.start)
                                       /\ \A i \in 1..Len(f.T) : Distribution(f.T[i])
                                       /\ \A i \in 1..Len(f.O) : Distribution(f.O[i]))))
TJson == IsEvent("json") /\ Query("json", For({"P03"},
    Must("json-outcome", Ev.out = "ok")
    \cup (IF Ev.out # "ok" THEN {} ELSE
          Must("json-model", Ev.loaded = Ev.model) \cup Must("json-exact", Ev.exact))))

TCrash == \/ Query("crash", {"unexpected-exception"})
          \/ Query("hang", {"does-not-terminate"})

TNext == \/ TUpdate \/ TTiny \/ TTinyStart \/ TReset \/ TFrom \/ TTrans \/ TStarts \/ TBuild \/ TRandomize
         \/ TDump \/ TJson \/ TCrash \/ (Finish /\ UNCHANGED <<w, X>>)
TSpec == TInit /\ [][TNext]_<<w, X, tr, ln>>
=============================================================================
