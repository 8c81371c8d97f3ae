-------------------------------- MODULE BJTrace -------------------------------
(* Is a recorded run a behaviour of BlockJacobi?  A case: [id, mesh, omega,    *)
(* wt, sig, ng, algo, si, iterMax, errMax, ddIterMax, ddErrMax, ev: rank ->    *)
(* sequence of "sweep", "exchange", sol: sweep -> cell -> angle -> [q, p:      *)
(* vertex -> group -> source and flux]].                                       *)
EXTENDS BlockJacobi, Cases, TLC, Json, IOUtils

Input == JsonDeserialize(IOEnv.CASES)
Problems == LET in == Input IN Strict([k \in 1..Len(in.cases) |->
    LET cs == in.cases[k] m == in.meshes[cs.mesh] IN
    [points |-> [c \in 1..Len(m.v) |-> PointsIn(m, c)], omega |-> cs.omega, wt |-> cs.wt,
     sigT |-> [c \in 1..Len(m.v) |-> FDec(cs.sig[m.mat[c]].t)], sigS |-> [c \in 1..Len(m.v) |-> FDec(cs.sig[m.mat[c]].s)],
     ng |-> cs.ng, iterMax |-> cs.iterMax, errMax |-> FDec(cs.errMax),
     algo |-> cs.algo, si |-> cs.si, ddIterMax |-> cs.ddIterMax, ddErrMax |-> FDec(cs.ddErrMax)]])

VARIABLES kase, pos, swept, bad
K == Input.cases[kase]
P == Problems[kase]
Ev == K.ev[1]
Following == IF pos < Len(Ev) THEN Ev[pos + 1] ELSE "end"
Say(x) == PrintT(<<"BAD", K.id, "event", pos, x, "after sweeps", swept, "change", FStr(ddSaid), FStr(change)>>)
Fail(x) == bad' = x /\ Say(x) /\ UNCHANGED <<bjVars, sweeps, phiLast, change, swept>>

Init == /\ kase \in 1..Len(Input.cases) /\ pos = 1 /\ swept = 0 /\ bad = ""
        /\ BJInit(P)

Event(e) ==
    IF e \notin want THEN Fail("comes a " \o e \o " where it may not")
    ELSE IF e = "sweep" /\ P.si /\ WrongSource(P, phiLast, K.sol[swept + 1]) # {} THEN Fail("source is not external source plus scattering of the last iteration")
    ELSE /\ bad' = ""
         /\ IF e = "sweep"
            THEN /\ SweepEvent(P, [c \in 1..Len(P.points) |-> [a \in 1..Len(P.wt) |-> K.sol[swept + 1][c][a].p]]) /\ swept' = swept + 1
                 \* where rounding decides, the run shows how it was decided
                 /\ (P.algo = "PBJ" /\ Unclear(P, ddSaid')) => ((Following = "exchange") <=> (want' = {"exchange"}))
            ELSE ExchangeEvent(P) /\ UNCHANGED swept
Finish ==
    IF "end" \notin want THEN Fail("ends early")
    ELSE IF \E r \in 2..Len(K.ev) : K.ev[r] # Ev THEN Fail("ranks decide differently")
    ELSE bad' = "end" /\ UNCHANGED <<bjVars, sweeps, phiLast, change, swept>>
Next == /\ bad = "" /\ UNCHANGED kase
        /\ IF pos <= Len(Ev) THEN Event(Ev[pos]) ELSE Finish
        /\ pos' = pos + 1
Accepted == bad \in {"", "end"}
===============================================================================
