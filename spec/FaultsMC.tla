------------------------------- MODULE FaultsMC -------------------------------
(* The ranks of a run read their parts of the mesh, sweep, and write the       *)
(* output; any operation on a file may fail.  Checks: the kinds of failure     *)
(* that the program notices (it then ends the whole run at once).  With all of *)
(* them no run ends well without its data; leaving one out is noticed by the   *)
(* criterion of Faults ("Noticed"), and a run that passes it has what it needs *)
(* whatever is checked ("Sound").  A part has two halves; a transfer may stop  *)
(* after the first, claiming success.  Again: the kinds of failure after which *)
(* the program tries again what is missing, instead.                           *)
EXTENDS Faults
CONSTANTS Ranks, Parts, MostFaults, Checks, Again
VARIABLES at,       \* rank -> where it is
          has,      \* rank -> the halves of its mesh it has read
          old,      \* a file with the name of the output is there from before
          exists,   \* the output file exists
          there,    \* <<rank, half>> in the output file, on the disk
          faults    \* how many operations have failed by themselves
vars == <<at, has, old, exists, there, faults, lost, failed>>
R == 1..Ranks
Dead == [r \in R |-> <<"dead">>]
Op(r, op, file, ok) == [r |-> r, op |-> op, file |-> file, wr |-> file = "psi", off |-> 0, n |-> 0, got |-> 0, ok |-> ok]
(* a transfer of the halves off, .., 2k + 1 of which got are done *)
Halves == 2..(2 * Parts + 1)
Xfer(r, op, file, off, k, got) == [r |-> r, op |-> op, file |-> file, wr |-> file = "psi", off |-> off, n |-> 2 * k + 2 - off, got |-> got,
                                   ok |-> got = 2 * k + 2 - off]
Init == /\ Fresh /\ at = [r \in R |-> <<"open">>] /\ has = [r \in R |-> {}]
        /\ old \in BOOLEAN /\ exists = old /\ there = {} /\ faults = 0

Fails == faults < MostFaults /\ faults' = faults + 1
Works == UNCHANGED faults
Noticed(kind) == kind \in Checks

(* rank r does one thing of its own and goes on, or the run is ended *)
Own(r, e, kind, again, next) ==
    /\ Operation(e)
    /\ IF ~e.ok /\ kind \in Again THEN at' = [at EXCEPT ![r] = again]
       ELSE IF e.ok \/ ~Noticed(kind) THEN at' = [at EXCEPT ![r] = next] ELSE at' = Dead
Read(r) == \E k \in 1..Parts, off \in Halves : /\ at[r] = <<"read", k, off>>
    /\ LET next == IF k = Parts THEN <<"close">> ELSE <<"read", k + 1, 2 * k + 2>>
           E(got) == Xfer(r, "read", "mesh", off, k, got)
           Here(got) == <<"read", k, off + got>> IN
       \/ Works /\ Own(r, E(2 * k + 2 - off), "", Here(0), next) /\ has' = [has EXCEPT ![r] = @ \cup off..(2 * k + 1)]
       \/ Fails /\ Own(r, E(0), "read", Here(0), next) /\ UNCHANGED has
       \/ Fails /\ off = 2 * k /\ Own(r, E(1), "short", Here(1), next) /\ has' = [has EXCEPT ![r] = @ \cup {off}]
       \/ Fails /\ Own(r, E(0), "short", Here(0), next) /\ UNCHANGED has
    /\ UNCHANGED <<old, exists, there>>
Close(r) == /\ at[r] = <<"close">>
            /\ \/ Works /\ Own(r, Op(r, "close", "mesh", TRUE), "", <<>>, <<"sweep">>)
               \/ Fails /\ Own(r, Op(r, "close", "mesh", FALSE), "close", <<>>, <<"sweep">>)
            /\ UNCHANGED <<has, old, exists, there>>
(* what is written is on the disk once the file is closed without an error *)
Write(r) == \E k \in 1..Parts, off \in Halves : /\ at[r] = <<"write", k, off>>
    /\ LET next == IF k = Parts THEN <<"finish">> ELSE <<"write", k + 1, 2 * k + 2>>
           E(got) == Xfer(r, "write", "psi", off, k, got)
           Here(got) == <<"write", k, off + got>> IN
       \/ Works /\ Own(r, E(2 * k + 2 - off), "", Here(0), next) /\ there' = there \cup ({r} \X (off..(2 * k + 1)))
       \/ Fails /\ Own(r, E(0), "write", Here(0), next) /\ UNCHANGED there
       \/ Fails /\ off = 2 * k /\ Own(r, E(1), "brief", Here(1), next) /\ there' = there \cup {<<r, off>>}
       \/ Fails /\ Own(r, E(0), "brief", Here(0), next) /\ UNCHANGED there
    /\ UNCHANGED <<has, old, exists>>
Finish(r) == /\ at[r] = <<"finish">>
             /\ \/ Works /\ Own(r, Op(r, "close", "psi", TRUE), "", <<>>, <<"end">>) /\ UNCHANGED there
                \/ Fails /\ Own(r, Op(r, "close", "psi", FALSE), "finish", <<>>, <<"end">>) /\ there' = {t \in there : t[1] # r}
             /\ UNCHANGED <<has, old, exists>>
Sweep == /\ \A r \in R : at[r] = <<"sweep">>
         /\ at' = [r \in R |-> <<"create">>]
         /\ UNCHANGED <<has, old, exists, there, faults, lost, failed>>

(* opening is collective: every rank sees the same result *)
All(op, file, ok) == /\ failed' = (failed \/ ~ok)
                     /\ lost' = {l \in lost : ~(ok /\ l.op = op /\ l.file = file)} \cup {Op(r, op, file, FALSE) : r \in IF ok THEN {} ELSE R}
Together(here, kind, ok, next) == /\ \A r \in R : at[r] = here
                                  /\ IF ok \/ ~Noticed(kind) THEN at' = [r \in R |-> next] ELSE at' = Dead
Open == /\ \/ Works /\ Together(<<"open">>, "", TRUE, <<"read", 1, 2>>) /\ All("open", "mesh", TRUE)
           \/ Fails /\ Together(<<"open">>, "open", FALSE, <<"close">>) /\ All("open", "mesh", FALSE)
        /\ UNCHANGED <<has, old, exists, there>>
Create == /\ \/ ~exists /\ Works /\ Together(<<"create">>, "", TRUE, <<"write", 1, 2>>) /\ All("open", "psi", TRUE) /\ exists' = TRUE
             \/ exists /\ Works /\ Together(<<"create">>, "", FALSE, <<"delete">>) /\ All("open", "psi", FALSE) /\ UNCHANGED exists
             \/ Fails /\ Together(<<"create">>, "", FALSE, <<"delete">>) /\ All("open", "psi", FALSE) /\ UNCHANGED exists
          /\ UNCHANGED <<has, old, there>>
Delete == /\ \A r \in R : at[r] = <<"delete">>
          /\ \/ exists /\ Works /\ exists' = FALSE /\ old' = FALSE /\ Operation(Op(1, "delete", "psi", TRUE)) /\ at' = [r \in R |-> <<"recreate">>]
             \/ /\ IF exists THEN Fails ELSE Works
                /\ Operation(Op(1, "delete", "psi", FALSE)) /\ UNCHANGED <<exists, old>>
                /\ at' = IF Noticed("delete") THEN Dead ELSE [r \in R |-> <<"recreate">>]
          /\ UNCHANGED <<has, there>>
Recreate == /\ \/ ~exists /\ Works /\ Together(<<"recreate">>, "", TRUE, <<"write", 1, 2>>) /\ All("open", "psi", TRUE) /\ exists' = TRUE
               \/ exists /\ Works /\ Together(<<"recreate">>, "recreate", FALSE, <<"end">>) /\ All("open", "psi", FALSE) /\ UNCHANGED exists
               \/ Fails /\ Together(<<"recreate">>, "recreate", FALSE, <<"end">>) /\ All("open", "psi", FALSE) /\ UNCHANGED exists
            /\ UNCHANGED <<has, old, there>>
Ended == (at = Dead \/ \A r \in R : at[r] = <<"end">>) /\ UNCHANGED vars
Next == (\E r \in R : Read(r) \/ Close(r) \/ Write(r) \/ Finish(r)) \/ Sweep \/ Open \/ Create \/ Delete \/ Recreate \/ Ended

Well == \A r \in R : at[r] = <<"end">>
Whole == there = R \X Halves /\ exists /\ ~old
(* the criterion, as it is put to recorded runs *)
Criterion == /\ \A r \in R : at[r] = <<"sweep">> => MaySolve(r)
             /\ Well => MayEndWell
             /\ at = Dead => MayEndBadly
(* a run that passes it has what it needs *)
Sound == /\ \A r \in R : at[r] = <<"sweep">> /\ MaySolve(r) => has[r] = Halves
         /\ Well /\ MayEndWell => Whole
================================================================================
