------------------------------ MODULE FaultTrace -------------------------------
(* Recorded runs in which operations on files failed, against Faults.  A case: *)
(* [id, ev: operations, and [op |-> "solve", r] where a rank first solves      *)
(* something after its operations before, well (the run ended successfully),   *)
(* hung (it did not end), same (its output is that of the run without          *)
(* failures)].                                                                 *)
EXTENDS Faults, Sequences, TLC, Json, IOUtils
Input == JsonDeserialize(IOEnv.CASES)
VARIABLES kase, pos, bad
K == Input[kase]
Init == kase \in 1..Len(Input) /\ pos = 1 /\ bad = "" /\ Fresh

Verdict == IF K.hung THEN "the run does not end"
           ELSE IF K.well /\ ~MayEndWell THEN "the run ends successfully without what failed"
           ELSE IF K.well /\ ~K.same THEN "the run ends successfully with another output"
           ELSE IF ~K.well /\ ~MayEndBadly THEN "the run fails though nothing failed"
           ELSE "end"
Step == /\ pos <= Len(K.ev)
        /\ LET e == K.ev[pos] IN
           IF e.op = "solve"
           THEN /\ UNCHANGED <<lost, failed>>
                /\ bad' = IF MaySolve(e.r) THEN "" ELSE "a rank solves without its part of the mesh"
                /\ IF bad' = "" THEN TRUE ELSE PrintT(<<"BAD", K.id, bad', e.r>>)
           ELSE Operation(e) /\ UNCHANGED bad
End == /\ pos = Len(K.ev) + 1
       /\ bad' = Verdict /\ IF bad' = "end" THEN TRUE ELSE PrintT(<<"BAD", K.id, bad', lost>>)
       /\ UNCHANGED <<lost, failed>>
Next == bad = "" /\ (Step \/ End) /\ pos' = pos + 1 /\ UNCHANGED kase
Accepted == bad \in {"", "end"}
================================================================================
