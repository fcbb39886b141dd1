--------------------------- MODULE TraceTaskTree ---------------------------
EXTENDS TaskTree, TraceLib

Bool(b) == IF b THEN "true" ELSE "false"

TInit == TraceLibInit /\ tree = CfgOr("tree", <<>>)

Do(op, act, fails) ==
    /\ IsEvent(op)
    /\ UNCHANGED tr
    /\ IF fails = {} THEN act /\ Accept
       ELSE Reject(fails) /\ UNCHANGED tree
Query(op, fails) == Do(op, UNCHANGED tree, fails)

H12 == {"H01", "H02"}

\* Which parts of a copy are wrong.
RECURSIVE NoPr(_)
NoPr(t) == [t EXCEPT !.pr = NoProba, !.kids = [i \in 1..Len(t.kids) |-> NoPr(t.kids[i])]]

TExpand == IsEvent("expand") /\
    IF Ev.out # "ok" THEN Query("expand", {"expand-outcome"}) ELSE
    LET t == At(tree, Ev.path) IN
    Do("expand", ExpandAt(Ev.path, Ev.x),
        For({"H01"}, Must("expansion", IsExpansion(NoPr(t), [NoPr(Ev.x) EXCEPT
                                            !.pr = UniformP(Len(Ev.x.kids))]))
            \cup Must("copies-not-distinct", Ev.distinct = "true")
            \cup Must("expansion-changed-tree", Ev.orig = tree)
            \cup Must("leaf-names", Unique(LeafNames(t)) => Unique(LeafNames(Ev.x))))
        \cup For(H12, Must("expansion-probabilities", IsExpansion(t, Ev.x))))

TCopy == IsEvent("copy") /\
    IF Ev.out # "ok" THEN Query("copy", {"copy-outcome"}) ELSE
    LET t == CopyTree(At(tree, Ev.path), Ev.suffix) IN
    Do("copy", CopyAt(Ev.path, Ev.suffix),
        For(H12, Must("copy", Ev.x = t)
            \cup Must("copies-not-distinct", Ev.distinct = "true")
            \cup Must("copy-changed-tree", Ev.orig = tree)))

TSetProba == IsEvent("set_proba") /\
    LET v == ValidProba(Ev.pr)
        n == Replace(tree, Ev.path, [At(tree, Ev.path) EXCEPT !.pr = Ev.pr])
    IN Do("set_proba", IF v THEN SetProba(Ev.path, Ev.pr) ELSE RejectProba(Ev.path, Ev.pr),
        For(H12, Must("set-proba-outcome", Ev.out = IF v THEN "ok" ELSE "ValueError")
            \cup Must(IF v THEN "set-proba" ELSE "rejected-proba-changed-tree",
                      Ev.tree = IF v THEN n ELSE tree)))

TMake == IsEvent("make") /\ Query("make",
    For({"H02"},
        LET v == ~Ev.given \/ ValidProba(Ev.pr) IN
        Must("make-outcome", Ev.out = IF v THEN "ok" ELSE "ValueError")
        \cup (IF v /\ Ev.out = "ok"
              THEN Must("make-probabilities",
                        Ev.got = IF Ev.given THEN Ev.pr ELSE UniformP(Ev.n))
              ELSE {})))

\* Almost a sum of one (in 1e-8): accepted or not, nothing is changed.
TNear == IsEvent("near") /\ Query("near",
    For({"H02"},
        Must("make-outcome", Ev.out \in {"ok", "ValueError"})
        \cup Must("make-probabilities", Ev.out = "ok" =>
                 /\ Len(Ev.got) = Len(Ev.pr)
                 /\ \A i \in 1..Len(Ev.pr) : Ev.got[i] - Ev.pr[i] \in -10..10)))

TTouch == IsEvent("touch") /\
    LET t == At(tree, Ev.path)
        n == Replace(tree, Ev.path, IF Ev.what = "hi" THEN [t EXCEPT !.hi = Ev.hi]
                                    ELSE [t EXCEPT !.name = Ev.name])
    IN Do("touch", tree' = n, For({"H01"}, Must("shared-nodes", Ev.tree = n)))

------------------------------------------------------------------------------
\* Export and loading.  Current: the tree (built or loaded) that is exported.
Loaded == DOMAIN Cfg.d # {}
Current == IF Loaded THEN Cfg.d ELSE tree

TExport == IsEvent("export") /\ Query("export",
    For({"H03"},
        IF Ev.out # "ok" THEN {"export-outcome"} ELSE
        LET F == Flatten(Current, 0, -1) IN
        Must("export-name", Ev.name = Ev.given)
        \cup Must("export-size", Len(Ev.nodes) = Len(F))
        \cup (IF Len(Ev.nodes) # Len(F) THEN {} ELSE
              Must("export-ids", \A i \in 1..Len(F) : Ev.nodes[i].id = F[i].id)
              \cup Must("export-parents", \A i \in 1..Len(F) : Ev.nodes[i].parent = F[i].parent)
              \cup Must("export-nodes", \A i \in 1..Len(F) :
                     /\ Ev.nodes[i].name = F[i].node.name
                     /\ Ev.nodes[i].k = F[i].node.k
                     /\ Ev.nodes[i].hi = F[i].node.hi
                     /\ Ev.nodes[i].n = Len(F[i].node.kids)))))

TLoad == IsEvent("load") /\ Query("load",
    For({"H03"}, Must("load-outcome", Ev.out = "ok")
        \cup (IF Ev.out = "ok" THEN Must("loaded-tree", Ev.tree = Cfg.d) ELSE {})))

\* A tree that was exported, loaded again: numbered, without agents.
RECURSIVE SameShape(_, _)
SameShape(x, t) == /\ x.k = t.k /\ x.name = t.name /\ x.hi = t.hi
                   /\ Len(x.kids) = Len(t.kids)
                   /\ \A i \in 1..Len(t.kids) : SameShape(x.kids[i], t.kids[i])
TReload == IsEvent("reload") /\ Query("reload",
    For({"H03"}, Must("reload-outcome", Ev.out = "ok")
        \cup (IF Ev.out # "ok" THEN {} ELSE
              LET X == Flatten(Ev.tree, 0, -1) IN
              Must("reloaded-tree", SameShape(Ev.tree, tree))
              \cup Must("reloaded-ids", \A i \in 1..Len(X) :
                     X[i].node.idx = X[i].id /\ X[i].node.parent = X[i].parent))))

TEmpty == \/ IsEvent("empty") /\ Query("empty", For({"H03"}, Must("empty", Ev.out = "false")))
          \/ IsEvent("load_empty") /\ Query("load_empty", For({"H03"}, Must("empty", Ev.out = "false")))
          \/ IsEvent("no_tree") /\ Query("no_tree",
                For({"H03"}, Must("empty", Ev.out = "none" /\ Ev.empty = "true")))

\* Lookups: first match in tree order, below the given node.
Sub(i) == LET F == Flatten(Cfg.d, 0, -1)
              j == CHOOSE j \in 1..Len(F) : F[j].node.idx = i
          IN F[j].node
\* (position 1 is the node itself)
First(F, Match(_)) == LET M == {j \in 2..Len(F) : Match(F[j])} IN
    IF M = {} THEN [found |-> FALSE, idx |-> -1]
    ELSE LET m == CHOOSE m \in M : \A n \in M : m <= n IN [found |-> TRUE, idx |-> F[m].node.idx]

Contains(s, w) == \E i \in 0..(Len(s) - Len(w)) : SubSeq(s, i + 1, i + Len(w)) = w

TParent == IsEvent("parent") /\ Query("parent",
    For({"H03"}, LET F == Flatten(Sub(Ev.from), 0, -1)
                     m == {j \in 2..Len(F) : F[j].node.idx = Ev.x}
                     r == IF m = {} THEN [found |-> FALSE, idx |-> -1]
                          ELSE [found |-> TRUE,
                                idx |-> F[F[CHOOSE j \in m : TRUE].parent + 1].node.idx]
                 IN Must("find-parent", Ev.out = "ok" /\ Ev.r = r)))
THuman == IsEvent("human") /\ Query("human",
    For({"H03"}, LET M(f) == f.node.k = "Leaf" /\ f.node.idx > Ev.x /\ f.node.agent = "human"
                 IN Must("find-human", Ev.out = "ok" /\ Ev.r = First(Flatten(Sub(Ev.from), 0, -1), M))))
TByName == IsEvent("by_name") /\ Query("by_name",
    For({"H03"}, LET M(f) == Contains(f.node.low, Ev.low)
                 IN Must("find-name", Ev.out = "ok" /\ Ev.r = First(Flatten(Sub(Ev.from), 0, -1), M))))

------------------------------------------------------------------------------
\* Meta actions.
Sep == [Sequential |-> ">", Parallel |-> "||", Alternative |-> "v"]
RECURSIVE Joined(_, _, _)
Joined(s, sep, i) == IF i = 1 THEN s[1].name ELSE Joined(s, sep, i - 1) \o sep \o s[i].name
RECURSIVE MetaNames(_)
MetaNames(d) == d.k = "plain" \/
    (/\ d.name = "(" \o Joined(d.kids, Sep[d.k], Len(d.kids)) \o ")"
     /\ \A i \in 1..Len(d.kids) : MetaNames(d.kids[i]))
RECURSIVE MetaSame(_, _)
MetaSame(d, c) == /\ d.k = c.k
                  /\ d.k = "plain" => d.name = c.name
                  /\ Len(d.kids) = Len(c.kids)
                  /\ \A i \in 1..Len(d.kids) : MetaSame(d.kids[i], c.kids[i])
TMeta == IsEvent("meta") /\ Query("meta",
    For({"H04"}, Must("meta-names", MetaNames(Ev.d))
        \cup Must("meta-outcome", Ev.out = "ok")
        \cup (IF Ev.out = "ok" THEN Must("meta-combination", MetaSame(Ev.d, Ev.c)) ELSE {})))

TCrash == \/ Query("crash", {"unexpected-exception"})
          \/ Query("hang", {"does-not-terminate"})

TNext == \/ TExpand \/ TCopy \/ TSetProba \/ TMake \/ TNear \/ TTouch \/ TExport \/ TLoad \/ TReload
         \/ TEmpty \/ TParent \/ THuman \/ TByName \/ TMeta \/ TCrash
         \/ (Finish /\ UNCHANGED tree)

TSpec == TInit /\ [][TNext]_<<tree, tr, ln>>
=============================================================================
