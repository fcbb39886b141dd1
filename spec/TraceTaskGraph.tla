--------------------------- MODULE TraceTaskGraph ---------------------------
EXTENDS TaskGraph, TraceLib

ToSet(s) == {s[i] : i \in 1..Len(s)}

IsState(x)  == x \in DOMAIN Cfg.feat
IsAction(x) == x \in DOMAIN Cfg.act
Masked(s, m, v) == \A i \in 1..Len(m) : Cfg.feat[s][i] * m[i] = v[i]
Explains(a, s, s1) == /\ Masked(s, Cfg.act[a].pm, Cfg.act[a].pv)
                      /\ Masked(s1, Cfg.act[a].qm, Cfg.act[a].qv)
Valid(p) == ValidPath(p, IsState, IsAction, Explains)

Bool(b) == IF b THEN "true" ELSE "false"

\* A logged graph is exactly the expected one.
SameTrans(logged, trans) ==
    ToSet(logged) = trans /\ Len(logged) = Cardinality(trans)
SameGraph(logged, gr) ==
    /\ SameTrans(logged.trans, gr.trans)
    /\ ToSet(logged.init) = gr.init
    /\ ToSet(logged.term) = gr.term
SameConj(logged, gr) ==
    /\ SameTrans(logged.trans, gr.trans)
    /\ logged.init = gr.init /\ logged.term = gr.term

TInit == TraceLibInit /\ TGInit

\* One event: act is the specification action, fails the broken clauses.
Do(op, act, fails) ==
    /\ IsEvent(op)
    /\ UNCHANGED tr
    /\ IF fails = {} THEN act /\ Accept
       ELSE Reject(fails) /\ UNCHANGED gvars

Query(op, fails) == Do(op, UNCHANGED gvars, fails)

TAddPath == IsEvent("add_path") /\
    LET v == Valid(Ev.path)
        e == IF v THEN WithPath(g, Ev.path) ELSE g
    IN Do("add_path", IF v THEN AddPath(Ev.path) ELSE UNCHANGED gvars,
          For({"G01"},
              Must("add-path-outcome", Ev.out = IF v THEN "ok" ELSE "ValueError")
              \cup Must(IF v THEN "add-path-content" ELSE "rejected-path-changed-graph",
                        SameGraph(Ev.g, e))))

THasPath == IsEvent("has_path") /\ Query("has_path",
    For({"G01"}, Must("has-path",
        Ev.out = IF Valid(Ev.path) THEN Bool(HasPath(g, Ev.path))
                 ELSE "ValueError")))

TCheckPath == IsEvent("check_path") /\ Query("check_path",
    For({"G01"}, Must("check-path", Ev.out = Bool(Valid(Ev.path)))))

\* A long path is two elements repeated n times (n > 2), then a tail.
TLong == IsEvent("long") /\ Query("long",
    For({"G01"}, Must("long-path",
        Ev.out = Bool(Valid(Ev.rep \o Ev.rep \o Ev.tail)))))

TAddTrans == IsEvent("add_trans") /\ Do("add_trans", AddTransition(Ev.x),
    For({"G01"}, Must("add-transition",
        SameGraph(Ev.g, [g EXCEPT !.trans = @ \cup {Ev.x}]))))

TRemoveTrans == IsEvent("remove_trans") /\
    LET there == Ev.x \in g.trans IN
    Do("remove_trans",
       IF there THEN RemoveTransition(Ev.x) ELSE UNCHANGED gvars,
       For({"G01"},
           Must("remove-outcome", Ev.out = IF there THEN "ok" ELSE "KeyError")
           \cup Must("remove-content",
                     SameGraph(Ev.g, [g EXCEPT !.trans = @ \ {Ev.x}]))))

THasTrans == IsEvent("has_trans") /\ Query("has_trans",
    For({"G01"}, Must("has-transition", Ev.out = Bool(Ev.x \in g.trans))))

TEq == IsEvent("graph_eq") /\ Query("graph_eq",
    For({"G01"}, Must("graph-equality",
        LET o == Ev.other IN
        Ev.out = Bool(/\ ToSet(o.trans) = g.trans
                      /\ ToSet(o.init) = g.init /\ ToSet(o.term) = g.term))))

TDet == IsEvent("det_check") /\ Query("det_check",
    For({"G02"}, Must("determinism-check",
        Ev.out = IF Deterministic(g) THEN "ok" ELSE "ValueError")))

TConjugate == IsEvent("conjugate") /\
    LET d == Deterministic(g) IN
    Do("conjugate", IF d THEN Conjugate ELSE UNCHANGED gvars,
       For({"G02"},
           Must("conjugate-outcome", Ev.out = IF d THEN "ok" ELSE "ValueError")
           \cup (IF d /\ Ev.out = "ok"
                 THEN Must("conjugate-content", SameConj(Ev.c, ConjOf(g)))
                 ELSE {})
           \cup Must("conjugate-changed-graph", SameGraph(Ev.g, g))))

TConjAdd == IsEvent("conj_add") /\ Do("conj_add", AddConj(Ev.x),
    For({"G03", "G04", "G05"}, Must("conj-add",
        SameConj(Ev.c, [c EXCEPT !.trans = @ \cup {Ev.x}]))))

\* A new graph is built at once.
TConjNew == IsEvent("conj_new") /\ UNCHANGED <<tr, g>> /\ Accept
    /\ c' = [trans |-> ToSet(Ev.trans), init |-> "I", term |-> "T"]

TChains == IsEvent("chains") /\ Query("chains",
    For({"G03"},
        IF Ev.out # "ok" THEN {"chains-outcome"} ELSE
        Must("chains-repeated", Cardinality(ToSet(Ev.res)) = Len(Ev.res))
        \cup Must("chains-missing", MaxChains(c) \subseteq ToSet(Ev.res))
        \cup Must("chains-spurious", ToSet(Ev.res) \subseteq MaxChains(c))
        \cup Must("chains-changed-graph", SameConj(Ev.c, c))))

CliqueFails(out, res, expected) ==
    IF out # "ok" THEN {"cliques-outcome"} ELSE
    LET got == {ToSet(res[i]) : i \in 1..Len(res)} IN
    Must("cliques-repeated", Cardinality(got) = Len(res))
    \cup Must("cliques-missing", expected \subseteq got)
    \cup Must("cliques-spurious", got \subseteq expected)

TCliques == IsEvent("cliques") /\ Query("cliques",
    For({"G04"}, CliqueFails(Ev.out, Ev.res, MaxCliques(c))
        \cup Must("cliques-changed-graph", SameConj(Ev.c, c))))

TRawCliques == IsEvent("raw_cliques") /\ Query("raw_cliques",
    For({"G04"}, CliqueFails(Ev.out, Ev.res,
        MaxCliquesOf(ToSet(Ev.nodes), ToSet(Ev.edges)))))

TCompact == IsEvent("compact") /\ Do("compact", Compact(ToSet(Ev.nodes), Ev.new),
    For({"G05"},
        Must("compact-outcome", Ev.out = "ok")
        \cup Must("compact-content",
             SameTrans(Ev.c.trans, CompactTrans(c.trans, ToSet(Ev.nodes), Ev.new)))
        \cup Must("compact-endpoints",
             LET n == CompactConj(c, ToSet(Ev.nodes), Ev.new)
             IN Ev.c.init = n.init /\ Ev.c.term = n.term)))

TCompactTask == IsEvent("compact_task") /\
    Do("compact_task", CompactTask(ToSet(Ev.nodes), Ev.new),
    For({"G05"},
        Must("compact-outcome", Ev.out = "ok")
        \cup Must("compact-task-content",
             SameTrans(Ev.g.trans, CompactTrans(g.trans, ToSet(Ev.nodes), Ev.new)))))

\* Export: ids are unique, nodes are named once each, links join named nodes.
TExport == IsEvent("export") /\ Query("export",
    For({"G08"},
        LET trans == IF Ev.of = "g" THEN g.trans ELSE c.trans
            ids == [i \in 1..Len(Ev.nodes) |-> Ev.nodes[i].id]
            nm(i) == LET k == CHOOSE j \in 1..Len(ids) : ids[j] = i
                     IN Ev.nodes[k].label
            known == \A i \in 1..Len(Ev.links) :
                        Ev.links[i].u \in ToSet(ids) /\ Ev.links[i].v \in ToSet(ids)
        IN IF Ev.out # "ok" THEN {"export-outcome"} ELSE
           Must("export-name", Ev.name = Ev.given)
           \cup Must("export-ids", Cardinality(ToSet(ids)) = Len(ids))
           \cup Must("export-nodes",
                /\ {Ev.nodes[i].label : i \in 1..Len(Ev.nodes)} = Nodes(trans)
                /\ Len(Ev.nodes) = Cardinality(Nodes(trans)))
           \cup Must("export-links",
                /\ known
                /\ known => {<<nm(Ev.links[i].u), Ev.links[i].label,
                               nm(Ev.links[i].v)>> : i \in 1..Len(Ev.links)} = trans
                /\ Len(Ev.links) = Cardinality(trans))
           \cup Must("all-nodes", ToSet(Ev.all) = Nodes(trans)
                                  /\ Len(Ev.all) = Cardinality(Nodes(trans)))))

\* Export of a graph whose nodes or labels may print alike: nodes and links are
\* those of the graph for some numbering of the nodes.
TExportText == IsEvent("export_text") /\ Query("export_text",
    For({"G08"},
        LET trans == IF Ev.of = "g" THEN g.trans ELSE c.trans
            Text == [n \in {Ev.text[i].n : i \in 1..Len(Ev.text)} |->
                        LET k == CHOOSE i \in 1..Len(Ev.text) : Ev.text[i].n = n
                        IN Ev.text[k].t]
            ids == {Ev.nodes[i].id : i \in 1..Len(Ev.nodes)}
            lab == [x \in ids |-> LET k == CHOOSE i \in 1..Len(Ev.nodes) : Ev.nodes[i].id = x
                                  IN Ev.nodes[k].label]
            nodes == Nodes(trans)
            known == \A i \in 1..Len(Ev.links) : Ev.links[i].u \in ids /\ Ev.links[i].v \in ids
            Count(f, s, l, d) == Cardinality({i \in 1..Len(Ev.links) :
                f[Ev.links[i].u] = s /\ f[Ev.links[i].v] = d /\ Ev.links[i].label = l})
            Texts == {Text[t[2]] : t \in trans}
            Matches(f) == \A s \in nodes, d \in nodes, l \in Texts :
                Count(f, s, l, d) = Cardinality({t \in trans :
                    t[1] = s /\ t[3] = d /\ Text[t[2]] = l})
        IN IF Ev.out # "ok" THEN {"export-outcome"} ELSE
           Must("export-ids", Cardinality(ids) = Len(Ev.nodes))
           \cup Must("export-nodes", Len(Ev.nodes) = Cardinality(nodes))
           \cup Must("export-links",
                known /\ Len(Ev.links) = Cardinality(trans)
                /\ Len(Ev.nodes) = Cardinality(nodes)
                /\ Cardinality(ids) = Len(Ev.nodes)
                /\ \E f \in [ids -> nodes] :
                     /\ \A x \in ids : Text[f[x]] = lab[x]
                     /\ \A x, y \in ids : x # y => f[x] # f[y]
                     /\ Matches(f))))

TCrash == \/ Query("crash", {"unexpected-exception"})
          \/ Query("hang", {"does-not-terminate"})

TNext == \/ TAddPath \/ THasPath \/ TCheckPath \/ TLong \/ TAddTrans
         \/ TRemoveTrans \/ THasTrans \/ TEq \/ TDet \/ TConjugate
         \/ TConjAdd \/ TConjNew \/ TChains \/ TCliques \/ TRawCliques \/ TCompact
         \/ TCompactTask \/ TExport \/ TExportText \/ TCrash
         \/ (Finish /\ UNCHANGED gvars)

TSpec == TInit /\ [][TNext]_<<gvars, tr, ln>>
=============================================================================
