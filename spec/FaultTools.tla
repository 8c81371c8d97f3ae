------------------------------ MODULE FaultTools -------------------------------
(* Mesh tools, and other programs seen from outside, whose input is cut short  *)
(* or whose output does not fit.  A case: [id, size: bytes of the whole file,  *)
(* given: how many of them are there to be read, or fit on the disk (-1: there *)
(* is no file, or it cannot be made), ok: the tool ended successfully, same:   *)
(* what it made is what it makes when all is there].                           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Input == JsonDeserialize(IOEnv.CASES)
VARIABLES kase, bad
K == Input[kase]
Init == kase \in 1..Len(Input) /\ bad = ""
Whole == K.given >= K.size
Verdict == IF K.ok /\ ~Whole THEN "it ends successfully without all of the file"
           ELSE IF ~K.ok /\ Whole THEN "it fails though all of the file is there"
           ELSE IF K.ok /\ ~K.same THEN "it ends successfully with another result"
           ELSE "end"
Next == /\ bad = ""
        /\ bad' = Verdict
        /\ IF bad' = "end" THEN TRUE ELSE PrintT(<<"BAD", K.id, bad', K.given, K.size>>)
        /\ UNCHANGED kase
Accepted == bad \in {"", "end"}
================================================================================
