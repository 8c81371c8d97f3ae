------------------------------- MODULE SITrace --------------------------------
(* Is a recorded run a source iteration?  A case: [id, mesh, omega, wt, sig    *)
(* (material -> [t, s]), ng, iterMax, errMax, ranks (rank -> number of sweeps),*)
(* sol: sweep -> cell -> angle -> [t (cross section), q, p: vertex -> group],  *)
(* said: sequence of reported changes]                                         *)
EXTENDS SourceIter, Cases, TLC, Json, IOUtils

Input == JsonDeserialize(IOEnv.CASES)
Problems == LET in == Input IN Strict([k \in 1..Len(in.cases) |->
    LET cs == in.cases[k] m == in.meshes[cs.mesh] IN
    [points |-> [c \in 1..Len(m.v) |-> PointsIn(m, c)], omega |-> cs.omega, wt |-> cs.wt,
     sigT |-> [c \in 1..Len(m.v) |-> FDec(cs.sig[m.mat[c]].t)], sigS |-> [c \in 1..Len(m.v) |-> FDec(cs.sig[m.mat[c]].s)],
     ng |-> cs.ng, iterMax |-> cs.iterMax, errMax |-> FDec(cs.errMax)]])

VARIABLES kase, bad
K == Input.cases[kase]
P == Problems[kase]
Say(b, x) == IF b \in {"", "end"} THEN TRUE ELSE PrintT(<<"BAD", K.id, "sweep", sweeps + 1, b, x>>)
Sol == K.sol[sweeps + 1]

Init == /\ kase \in 1..Len(Input.cases) /\ bad = ""
        /\ SourceIterInit(P)

WrongSigma == {c \in 1..Len(Sol) : \E a \in 1..Len(P.wt) : ~FEq(Sol[c][a].t, P.sigT[c])}
SweepBad ==
    IF ~Continues(P) THEN <<"a sweep after the iteration had to stop", FStr(change)>>
    ELSE IF WrongSigma # {} THEN <<"cross section is not that of the material", CHOOSE c \in WrongSigma : TRUE>>
    ELSE LET w == WrongSource(P, phiLast, Sol) IN
         IF w # {} THEN <<"source is not external source plus scattering of the last sweep", CHOOSE x \in w : TRUE>>
         ELSE <<"", 0>>
Said(n, e) == n <= Len(K.said) /\ FClose(FDec(K.said[n]), e, FDec("2e-6"), FDec("1e-13"))
EndBad ==
    IF ~Stops(P) THEN <<"stops early", FStr(change)>>
    ELSE IF \E r \in 1..Len(K.ranks) : K.ranks[r] # sweeps THEN <<"ranks make different numbers of sweeps", K.ranks>>
    ELSE IF Len(K.said) # sweeps THEN <<"reports another number of iterations than it made", Len(K.said)>>
    ELSE <<"", 0>>

Step(b) == bad' = b[1] /\ Say(b[1], b[2])
Sweep == /\ sweeps < Len(K.sol)
         /\ LET b == SweepBad IN
            IF b[1] # "" THEN Step(b) /\ UNCHANGED <<sweeps, phiLast, change>>
            ELSE /\ SweepEff(P, [c \in 1..Len(Sol) |-> [a \in 1..Len(P.wt) |-> Sol[c][a].p]])
                 /\ Step(IF Said(sweeps', change') THEN <<"", 0>> ELSE <<"reported change is wrong", <<FStr(change'), K.said>> >>)
End == /\ sweeps = Len(K.sol)
       /\ Step(LET b == EndBad IN IF b[1] = "" THEN <<"end", 0>> ELSE b)
       /\ UNCHANGED <<sweeps, phiLast, change>>
Next == bad = "" /\ (Sweep \/ End) /\ UNCHANGED kase
Accepted == bad \in {"", "end"}
================================================================================
