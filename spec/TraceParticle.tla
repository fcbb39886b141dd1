--------------------------- MODULE TraceParticle ----------------------------
EXTENDS Particle, TraceLib

\* The particles, and the states that are possible.
VARIABLES c, X

M == Cfg.m
HasModel == "m" \in DOMAIN Cfg
TInit == /\ TraceLibInit /\ c = <<>> /\ X = IF HasModel THEN Support(M.start) ELSE {}

Do(op, act, fails) ==
    /\ IsEvent(op)
    /\ UNCHANGED tr
    /\ IF fails = {} THEN act /\ Accept
       ELSE Reject(fails) /\ UNCHANGED <<c, X>>
Query(op, fails) == Do(op, UNCHANGED <<c, X>>, fails)

PK == 1000000
Tol(exact) == IF exact THEN 2 ELSE 80000
Near(x, y, tol) == x - y \in (-tol)..tol
\* dist: sequence of [s, p]; distribution of draws among particles.
Draws(dist, exact, x) ==
    /\ \A i \in 1..Len(dist) : dist[i].s \in Support(x)
    /\ \A s \in Support(x) : \E i \in 1..Len(dist) :
         dist[i].s = s /\ Near(dist[i].p, (PK \div Total(x)) * x[s], Tol(exact) + Total(x))

TStart == IsEvent("start") /\ Do("start", c' = Ev.counts /\ X' = Support(M.start),
    Must("outcome", Ev.out = "ok")
    \cup IF Ev.out # "ok" THEN {} ELSE
         Must("number-of-particles", IsBelief(Ev.counts, Ev.n, M.n))
         \cup Must("impossible-particle", Support(Ev.counts) \subseteq Support(M.start))
         \cup Must("frequencies", Ev.freq = Ev.counts))

\* calls: transitions that were sampled, [s, t, o, n]: n times.
FoundOf(calls, o) == [t \in 1..M.n |-> SumOver(Len(calls), LAMBDA i :
                        IF calls[i].t = t /\ calls[i].o = o THEN calls[i].n ELSE 0)]
\* A failure that is (almost) impossible.
Unlikely == 4 * Likelihood(M, Ev.a, Ev.o, c) >= LikelihoodOf(M, c)

TSucc == IsEvent("succ") /\
    LET found == FoundOf(Ev.calls, Ev.o)
        big == Ev.n >= 1000 /\ Total(found) = Ev.n
    IN Do("succ", IF Ev.out = "ok" THEN c' = Ev.counts /\ X' = Succ(M, Ev.a, Ev.o, X) ELSE UNCHANGED <<c, X>>,
          Must("previous-belief-modified", Ev.before = c)
          \cup Must("sampled-from-elsewhere", \A i \in 1..Len(Ev.calls) :
                      Ev.calls[i].a = Ev.a /\ CanSample(M, c, Ev.a, Ev.calls[i].s, Ev.calls[i].t, Ev.calls[i].o))
          \cup (IF Total(found) = 0
                THEN Must("error-when-nothing-found", Ev.out = "MaxSamplesReached")
                     \cup Must("gives-up-too-early", ~ Unlikely)
                ELSE Must("outcome", Ev.out = "ok")
                     \cup (IF Ev.out # "ok" THEN {} ELSE
                           Must("number-of-particles", IsBelief(Ev.counts, Ev.n, M.n))
                           \cup Must("impossible-particle", Support(Ev.counts) \subseteq Succ(M, Ev.a, Ev.o, X))
                           \cup Must("particles-found", Made(found, Ev.counts, Ev.n))
                           \cup Must("gives-up-too-early", Unlikely => Total(found) >= Ev.n)
                           \cup Must("frequencies", Ev.freq = Ev.counts)
                           \cup Must("distribution", big => \A t \in 1..M.n : Near(
                                   (PK \div Ev.n) * Ev.counts[t], Scaled(Weights(M, Ev.a, Ev.o, c), 1000)[t] * 1000, 100000))))
          \cup Must("error-of-failure", Ev.out # "ok" => Ev.a = Ev.ea /\ Ev.o = Ev.eo))

\* Distribution of draws among the particles.
TSample == IsEvent("sample") /\ Query("sample", Must("draws", Draws(Ev.dist, Ev.exact, c)))

\* Beliefs made from a sampler that gives the states in Ev.given then fails.
TPopulate == IsEvent("populate") /\
    LET found == [s \in 1..Ev.ns |-> Cardinality({i \in 1..Len(Ev.given) : Ev.given[i] = s})]
    IN Query("populate", IF Len(Ev.given) = 0 THEN Must("error-when-nothing-found", Ev.out = "MaxSamplesReached")
        ELSE Must("outcome", Ev.out = "ok")
             \cup (IF Ev.out # "ok" THEN {} ELSE
                   Must("number-of-particles", IsBelief(Ev.counts, Ev.n, Ev.ns))
                   \cup Must("particles-found", Made(found, Ev.counts, Ev.n))
                   \* with many duplicates of few particles, all are surely duplicated
                   \cup Must("duplicates", (Ev.n >= 90 /\ Len(Ev.given) \in 1..3) =>
                              \A s \in Support(found) : Ev.counts[s] >= 5)
                   \cup Must("frequencies", Ev.freq = Ev.counts)))

\* Beliefs as arrays: weights p over their sum.
TArray == IsEvent("array") /\ Query("array",
    Must("array-accepted", (Ev.out = "ok") = Ev.normal)
    \cup (IF Ev.out # "ok" \/ ~ Ev.normal THEN {} ELSE
          Must("array-kept", Ev.list = Ev.w)
          \cup Must("draws", Draws(Ev.dist, Ev.exact, Ev.w))))
\* Successor of a belief as array: that of the model.
TArraySucc == IsEvent("asucc") /\ LET r == Weights(M, Ev.a, Ev.o, Ev.w) IN Query("asucc",
    Must("previous-belief-modified", Ev.before = Ev.w)
    \cup (IF WSum(r) = 0 THEN Must("impossible-observation", Ev.out = "Impossible")
          ELSE Must("outcome", Ev.out = "ok")
               \cup Must("successor", Ev.out = "ok" => Close(Ev.b, Reduce(r), 100000, 2))))

TCrash == \/ Query("crash", {"unexpected-exception"})
          \/ Query("hang", {"does-not-terminate"})
TNext == \/ TStart \/ TSucc \/ TSample \/ TPopulate \/ TArray \/ TArraySucc \/ TCrash
         \/ (Finish /\ UNCHANGED <<c, X>>)
TSpec == TInit /\ [][TNext]_<<c, X, tr, ln>>
=============================================================================
