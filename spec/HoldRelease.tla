----------------------------- MODULE HoldRelease -----------------------------
(***************************************************************************)
(* Holding a part until the human has finished, then releasing it.         *)
(* M: [wait, fail, com, p] (costs, probability that the human finishes).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, Rational, TLC

States == {"zero", "one", "final"}
Actions == {"wait", "physical", "communicate"}
Trans(M, a, s) ==
    CASE s = "zero" -> ("zero" :> RSub(ROne, M.p)) @@ ("one" :> M.p)
      [] s = "one" -> IF a = "physical" THEN ("final" :> ROne) ELSE ("one" :> ROne)
      [] s = "final" -> ("final" :> ROne)
Obs(a, s) == IF a = "wait" \/ s = "final" THEN "nothing"
             ELSE IF s = "zero" THEN "doing" ELSE "done"
\* (costs of the physical action once it can succeed are null)
Cost(M, a, s) == CASE a = "wait" -> M.wait
                   [] a = "communicate" -> M.com
                   [] a = "physical" -> IF s = "zero" THEN M.fail ELSE 0
=============================================================================
