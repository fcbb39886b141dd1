-------------------------- MODULE TraceExtraction --------------------------
EXTENDS Extraction, TraceLib

SameConj(logged, gr) ==
    /\ Range(logged.trans) = gr.trans
    /\ Len(logged.trans) = Cardinality(gr.trans)
    /\ logged.init = gr.init /\ logged.term = gr.term

TInit == TraceLibInit /\ TGInit /\ meta = NoMeta

Do(act, fails) ==
    /\ UNCHANGED tr
    /\ IF fails = {} THEN act /\ Accept
       ELSE Reject(fails) /\ UNCHANGED evars

WithAll(ps) == LET F[i \in 0..Len(ps)] ==
                     IF i = 0 THEN EmptyTask ELSE WithPath(F[i - 1], ps[i])
               IN F[Len(ps)]

TDemos == IsEvent("demos") /\
    \E gr \in {WithAll(Ev.paths)} : \E cj \in {ConjOf(gr)} :
       Do(g' = gr /\ c' = cj /\ UNCHANGED meta,
          Must("conjugate", SameConj(Ev.c, cj)))

Step(kind) ==
    \E cj \in {CompactConj(c, Range(Ev.acts), Ev.new)} :
       Do(/\ c' = cj /\ UNCHANGED g
          /\ meta' = meta @@ (Ev.new :> [kind |-> kind, acts |-> Ev.acts]),
          Must("wrong-" \o kind,
               IF kind = "sequence" THEN Ev.acts \in MaxChains(c)
               ELSE Range(Ev.acts) \in MaxCliques(c) /\ Unique(Ev.acts))
          \cup Must("chains-first", kind = "parallel" => MaxChains(c) = {})
          \cup Must("compacted", SameConj(Ev.c, cj)))

TSequence == IsEvent("sequence") /\ Step("sequence")
TParallel == IsEvent("parallel") /\ Step("parallel")

TOver == IsEvent("over") /\
    Do(UNCHANGED evars,
       Must("stopped-early", Over)
       \cup Must("single", (Ev.single = "true") <=> Single)
       \cup (IF Single THEN Must("task", Ev.tree = Extracted) ELSE {})
       \cup (IF Extractable(Cfg.task)
             THEN Must("not-recovered",
                       Single /\ Ev.single = "true"
                       /\ Executions(Ev.tree) = WithEnds(Executions(Cfg.task)))
             ELSE {}))

TCrash == \/ IsEvent("crash") /\ Do(UNCHANGED evars, {"unexpected-exception"})
          \/ IsEvent("hang") /\ Do(UNCHANGED evars, {"does-not-terminate"})

TNext == \/ TDemos \/ TSequence \/ TParallel \/ TOver \/ TCrash
         \/ (Finish /\ UNCHANGED evars)

TSpec == TInit /\ [][TNext]_<<evars, tr, ln>>
=============================================================================
