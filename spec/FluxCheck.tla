------------------------------ MODULE FluxCheck ------------------------------
(* Are results the same?  A case: [id, ref, got, rel, abs (relative to the     *)
(* largest value)] with ref, got: cell -> values; one state per cell.          *)
EXTENDS Flux, TLC, Json, IOUtils

Input == JsonDeserialize(IOEnv.CASES)
Scale == LET in == Input IN Strict([k \in 1..Len(in) |-> FMul(FDec(in[k].abs), Magnitude(in[k].ref))])
Finite == LET in == Input IN Strict([k \in 1..Len(in) |-> FFinite(Magnitude(in[k].ref)) /\ FFinite(Magnitude(in[k].got))])

VARIABLES kase, pos, bad
K == Input[kase]
Say(b, x) == IF b = "" THEN TRUE ELSE PrintT(<<"BAD", K.id, b, x>>)

Init == /\ kase \in 1..Len(Input) /\ pos = 1
        /\ bad = IF ~Finite[kase] THEN "a value is not finite"
                 ELSE IF Len(K.ref) # Len(K.got) THEN "different numbers of cells" ELSE ""
        /\ Say(bad, K.note)
Next == /\ bad = "" /\ pos <= Len(K.ref)
        /\ bad' = IF SameCell(K.ref[pos], K.got[pos], FDec(K.rel), Scale[kase]) THEN "" ELSE "results differ"
        /\ Say(bad', <<"cell", pos - 1, K.note>>)
        /\ pos' = pos + 1 /\ UNCHANGED kase
Accepted == bad = ""
==============================================================================
