------------------------------ MODULE TraceLib ------------------------------
(***************************************************************************)
(* Common part of all trace specifications.  A file holds many traces,     *)
(* each one recorded from the real code; TLC explores, for each of them,   *)
(* the (single) behaviour which consumes its events one after the other.   *)
(* An event that the specification does not allow is reported with the     *)
(* name of the clauses it breaks and ends its trace; a trace that is       *)
(* entirely consumed is reported as done.                                  *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC
LOCAL INSTANCE Json
LOCAL INSTANCE IOUtils

VARIABLES tr, ln

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Prop == IOEnv.PROP

Cfg == Traces[tr].cfg
NEv == Len(Traces[tr].ev)
Ev == Traces[tr].ev[ln]

TraceLibInit == tr \in 1..Len(Traces) /\ ln = 1

\* A constant of the trace (absent when recording it crashed early).
CfgOr(f, default) == IF f \in DOMAIN Cfg THEN Cfg[f] ELSE default

IsEvent(op) == ln <= NEv /\ Ev.op = op

\* Restriction of clauses to the property that is checked.
For(ps, fails) == IF Prop = "ALL" \/ Prop \in ps THEN fails ELSE {}

\* Fail(c, ok): the singleton clause c if ok does not hold.
Must(c, ok) == IF ok THEN {} ELSE {c}

Reject(fails) ==
    /\ \A c \in fails :
          PrintT("VFAIL|" \o ToString(tr) \o "|" \o ToString(ln) \o "|" \o c)
    /\ ln' = NEv + 2

\* Consumes the current event.
Accept == ln' = ln + 1

Finish == /\ ln = NEv + 1
          /\ PrintT("VDONE|" \o ToString(tr))
          /\ ln' = NEv + 2
          /\ UNCHANGED tr

=============================================================================
