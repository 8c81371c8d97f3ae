------------------------------ MODULE ReportTrace ------------------------------
(* Are the figures that a recorded run prints right?  A case: [id, mesh, omega, *)
(* wt, sig, ng, algo, si, ddIterMax, ranks, threads, said (printed sigmas), fl, *)
(* sched, ev: sequence of [k: "sweep" | "exchange" | "begin" | "end" | kind of  *)
(* line, ...], others: number of bytes that other ranks printed].               *)
EXTENDS Report, Cases, Json, IOUtils

Input == JsonDeserialize(IOEnv.CASES)
Problems == LET in == Input IN Strict([k \in 1..Len(in.cases) |->
    LET cs == in.cases[k] m == in.meshes[cs.mesh] IN
    [points |-> [c \in 1..Len(m.v) |-> PointsIn(m, c)], omega |-> cs.omega, wt |-> cs.wt, ng |-> cs.ng,
     algo |-> cs.algo, si |-> cs.si, ddIterMax |-> cs.ddIterMax, ranks |-> cs.ranks, threads |-> cs.threads,
     sig |-> cs.sig, fl |-> cs.fl, sched |-> cs.sched]])

VARIABLES kase, pos, bad
K == Input.cases[kase]
P == Problems[kase]
Say(x, e) == PrintT(<<"BAD", K.id, x, e, "sweeps", swept, "iterations", inSource, "calls", calls>>)
Fail(x, e) == bad' = x /\ Say(x, e) /\ UNCHANGED reportVars

Init == /\ kase \in 1..Len(Input.cases) /\ pos = 1 /\ bad = "" /\ ReportInit
Step(e) ==
    CASE e.k = "sweep" -> SweepDone /\ bad' = ""
      [] e.k = "exchange" -> ExchangeDone /\ bad' = ""
      [] e.k = "begin" -> SolveBegins /\ bad' = ""
      [] e.k = "end" -> SolveEnds(e) /\ bad' = ""
      [] OTHER -> IF LineOk(P, e) THEN LinePrinted(P, e) /\ bad' = ""
                  ELSE Fail("a printed figure is not that of the run", e)
Finish == IF ~Complete(P) THEN Fail("lines are missing or repeated", <<count, Wanted(P)>>)
          ELSE IF K.others # 0 THEN Fail("another rank prints", K.others)
          ELSE bad' = "end" /\ UNCHANGED reportVars
Next == /\ bad = "" /\ UNCHANGED kase
        /\ IF pos <= Len(K.ev) THEN Step(K.ev[pos]) ELSE Finish
        /\ pos' = pos + 1
Accepted == bad \in {"", "end"}
================================================================================
