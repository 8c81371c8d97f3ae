------------------------------ MODULE NestedTrace ------------------------------
(* Is a recorded run a behaviour of NestedIter?  A case: as in BJTrace, with   *)
(* events "sweep", "exchange", "krylov" (a solve begins), "solved".            *)
EXTENDS NestedIter, Cases, TLC, Json, IOUtils

Input == JsonDeserialize(IOEnv.CASES)
Problems == LET in == Input IN Strict([k \in 1..Len(in.cases) |->
    LET cs == in.cases[k] m == in.meshes[cs.mesh] IN
    [points |-> [c \in 1..Len(m.v) |-> PointsIn(m, c)], omega |-> cs.omega, wt |-> cs.wt,
     sigT |-> [c \in 1..Len(m.v) |-> FDec(cs.sig[m.mat[c]].t)], sigS |-> [c \in 1..Len(m.v) |-> FDec(cs.sig[m.mat[c]].s)],
     ng |-> cs.ng, iterMax |-> cs.iterMax, errMax |-> FDec(cs.errMax), algo |-> cs.algo]])

VARIABLES kase, pos, swept, bad
K == Input.cases[kase]
P == Problems[kase]
Ev == K.ev[1]
NVars == <<sweeps, phiLast, change, phase>>

Init == /\ kase \in 1..Len(Input.cases) /\ pos = 1 /\ swept = 0 /\ bad = ""
        /\ NestedInit(P)
BadOf(e) == CASE e = "sweep" -> SweepBad(P, K.sol[swept + 1]) [] e = "exchange" -> ExchangeBad(P)
              [] e = "krylov" -> KrylovBad(P) [] e = "solved" -> SolvedBad(P)
Eff(e) == CASE e = "sweep" -> NestedSweep(P, K.sol[swept + 1]) [] e = "exchange" -> NestedExchange(P)
            [] e = "krylov" -> NestedKrylov(P) [] e = "solved" -> NestedSolved(P)
FinishBad == IF \E r \in 2..Len(K.ev) : K.ev[r] # Ev THEN "ranks decide differently" ELSE EndBad(P)
Verdict(b, good) == bad' = (IF b = "" THEN good ELSE b)
                    /\ IF b = "" THEN TRUE ELSE PrintT(<<"BAD", K.id, "event", pos, b, phase, "after sweeps", swept, "change", FStr(change)>>)
Next == /\ bad = "" /\ UNCHANGED kase
        /\ pos' = pos + 1
        /\ IF pos <= Len(Ev)
           THEN LET b == BadOf(Ev[pos]) IN
                /\ Verdict(b, "")
                /\ IF b = "" THEN Eff(Ev[pos]) /\ swept' = swept + (IF Ev[pos] = "sweep" THEN 1 ELSE 0)
                             ELSE UNCHANGED <<NVars, swept>>
           ELSE Verdict(FinishBad, "end") /\ UNCHANGED <<NVars, swept>>
Accepted == bad \in {"", "end"}
================================================================================
