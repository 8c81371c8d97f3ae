------------------------------ MODULE GroupCheck -----------------------------
(* Energy groups.  A case: [id, ng, got: cell -> values of all groups, ones:   *)
(* for each group the result of the run with that group alone, spread: what    *)
(* the program reports ("" if not to be checked), rel, abs].  One state per    *)
(* group and cell.                                                             *)
EXTENDS Flux, TLC, Json, IOUtils

Input == JsonDeserialize(IOEnv.CASES)
Scale == LET in == Input IN Strict([k \in 1..Len(in) |-> FMul(FDec(in[k].abs), Magnitude(in[k].got))])
RightSpread == LET in == Input IN Strict([k \in 1..Len(in) |->
    in[k].spread = "" \/ FClose(FDec(in[k].spread), Spread(in[k].got, in[k].ng), FDec("2e-6"), FDec("1e-300"))])

VARIABLES kase, grp, pos, bad
K == Input[kase]
Say(b, x) == IF b = "" THEN TRUE ELSE PrintT(<<"BAD", K.id, b, x>>)
Init == /\ kase \in 1..Len(Input) /\ grp \in 1..Input[kase].ng /\ pos = 1
        /\ bad = IF ~RightSpread[kase] THEN "reported difference between groups is wrong"
                 ELSE IF Len(K.ones[grp]) # Len(K.got) THEN "different numbers of cells" ELSE ""
        /\ Say(bad, <<K.spread, FStr(Spread(K.got, K.ng))>>)
Next == /\ bad = "" /\ pos <= Len(K.got)
        /\ bad' = IF SameCell(K.ones[grp][pos], Group(K.got[pos], K.ng, grp), FDec(K.rel), Scale[kase]) THEN ""
                  ELSE "a group differs from the one-group result"
        /\ Say(bad', <<"group", grp - 1, "cell", pos - 1>>)
        /\ pos' = pos + 1 /\ UNCHANGED <<kase, grp>>
Accepted == bad = ""
==============================================================================
