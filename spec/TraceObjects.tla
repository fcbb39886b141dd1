---------------------------- MODULE TraceObjects ----------------------------
EXTENDS Objects, TraceLib

D == Cfg.objs
Bool(b) == IF b THEN "true" ELSE "false"

TInit == TraceLibInit /\ CInit

Do(op, act, fails) ==
    /\ IsEvent(op)
    /\ UNCHANGED tr
    /\ IF fails = {} THEN act /\ Accept
       ELSE Reject(fails) /\ UNCHANGED coll
Query(op, fails) == Do(op, UNCHANGED coll, fails)

\* Equality -----------------------------------------------------------------
TEq == IsEvent("eq") /\ Query("eq",
    For({"G06"}, LET s == Same(D, Ev.x, Ev.y) IN
        Must("equality", Ev.eq = Bool(s)) \cup Must("inequality", Ev.ne = Bool(~s))
        \cup Must("symmetry", Ev.qe = Bool(s))
        \cup Must("hash", s => Ev.hash = "same")))

\* Collections (d: dictionary with the same operations) ----------------------
TPut == IsEvent("put") /\ Do("put", Put(D, Ev.x, Ev.v),
    For({"G06"}, Must("put", Ev.out = "ok")
        \cup Must("size-after-put", Ev.n = Len(coll) + (IF In(D, Ev.x) THEN 0 ELSE 1)
                                    /\ Ev.m = Ev.n)))
TDel == IsEvent("del") /\
    LET there == In(D, Ev.x) IN
    Do("del", IF there THEN Del(D, Ev.x) ELSE UNCHANGED coll,
    For({"G06"}, Must("del", Ev.out = IF there THEN "ok" ELSE "KeyError")
        \cup Must("size-after-del", Ev.n = Len(coll) - (IF there THEN 1 ELSE 0)
                                    /\ Ev.m = Ev.n)))
TGet == IsEvent("get") /\ Query("get",
    For({"G06"}, Must("contains", Ev.in = Bool(In(D, Ev.x)))
        \cup Must("get", Ev.out = IF In(D, Ev.x) THEN "ok" ELSE "KeyError")
        \cup (IF In(D, Ev.x) THEN Must("value", Ev.v = Get(D, Ev.x)) ELSE {})))

\* Conditions -----------------------------------------------------------------
TCond == IsEvent("cond") /\ Query("cond",
    For({"G07"}, Must("condition-construction",
        Ev.out = IF WellFormed(Ev.m, Ev.v) THEN "ok" ELSE "ValueError")))

CondHolds(c, f) == c.all \/ Holds(c.m, c.v, f)
TCheck == IsEvent("check") /\ Query("check",
    For({"G07"}, Must("condition-check", Ev.out = Bool(CondHolds(Ev.c, Ev.f)))))
TAction == IsEvent("action") /\ Query("action",
    For({"G07"}, Must("action-check",
        Ev.out = Bool(CondHolds(Ev.pre, Ev.before) /\ CondHolds(Ev.post, Ev.after)))))

\* Circuits ---------------------------------------------------------------------
Parts(ps) == {<<p[1], p[2], p[3], p[4]>> : p \in ToSet(ps)}
TCircuit == IsEvent("circuit") /\ Query("circuit",
    For({"G07"},
        LET P == Parts(Ev.parts) IN
        Must("circuit-features", Parts(Ev.feat) = P /\ Len(Ev.feat) = Cardinality(P)
                                 /\ Ev.ones = "true")
        \cup Must("circuit-shape", Ev.shape = <<PartIds, Ev.board[1], Ev.board[2], Orientations>>)
        \cup Must("circuit-flat",
             /\ ToSet(Ev.flat) = {Flat(Ev.board, x) : x \in P}
             /\ Ev.dim = PartIds * Ev.board[1] * Ev.board[2] * Orientations
             /\ Ev.len = Ev.dim)
        \cup Must("circuit-parts", ToSet(Ev.got) = ToSet(Ev.given)
                                   /\ Len(Ev.got) = Cardinality(ToSet(Ev.given)))))
TPresence == IsEvent("presence") /\ Query("presence",
    For({"G07"}, Must("presence-check",
        Ev.out = Bool((Ev.x \in Parts(Ev.parts)) = Ev.there))))
TPlace == IsEvent("place") /\ Query("place",
    For({"G07"}, Must("place-check",
        Ev.out = Bool(PlaceExplains(Ev.x, Parts(Ev.before), Parts(Ev.after))))
        \cup Must("place-attributes", Ev.pos = <<Ev.x[2], Ev.x[3]>> /\ Ev.ori = Ev.x[4])))

TCrash == \/ Query("crash", {"unexpected-exception"})
          \/ Query("hang", {"does-not-terminate"})

TNext == \/ TEq \/ TPut \/ TDel \/ TGet \/ TCond \/ TCheck \/ TAction
         \/ TCircuit \/ TPresence \/ TPlace \/ TCrash
         \/ (Finish /\ UNCHANGED coll)

TSpec == TInit /\ [][TNext]_<<coll, tr, ln>>
=============================================================================
