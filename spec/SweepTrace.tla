------------------------------ MODULE SweepTrace ------------------------------
(* Is a recorded run a behaviour of Sweep?  One behaviour per recorded run and *)
(* direction; each event must be an enabled action, or "bad" says why not.     *)
EXTENDS Sweep, Geometry, TLC, TLCExt, Json, IOUtils

Input == JsonDeserialize(IOEnv.CASES)
Checks == IOEnv.CHECKS          \* "order", "flow" or "both"
Order == Checks # "flow"
Flow == Checks # "order"

\* The problem of case k and direction a, from the nodes of the mesh file and
\* the directions of the quadrature.
Points(cs, c) == [i \in 1..4 |-> cs.x[cs.v[c][i]]]
Problems ==
    LET in == Input
        normals == Strict([k \in 1..Len(in.meshes) |->
            [c \in 1..Len(in.meshes[k].v) |-> [f \in 1..4 |-> Normal(Points(in.meshes[k], c), f)]]])
        sides(cs, a) == [c \in 1..Len(cs.own) |->
            [f \in 1..4 |-> Side(cs.omega[a], normals[cs.mesh][c][f])]]
    IN Strict([k \in 1..Len(in.cases) |->
        LET cs == in.cases[k] m == in.meshes[cs.mesh] IN
        [a \in 1..Len(cs.ev) |->
            [own |-> cs.own, nr |-> cs.nr, adj |-> m.adj, adjf |-> m.adjf, cpl |-> cs.cpl,
             zeroable |-> cs.zeroable, side |-> sides(cs, a)]]])

VARIABLES kase, dir, pos, bad
vars == <<swp, busy, hist, xn, snap, kase, dir, pos, bad>>

P == Problems[kase][dir]
Ev == Input.cases[kase].ev[dir]

Init == /\ kase \in 1..Len(Input.cases)
        /\ dir \in 1..Len(Input.cases[kase].ev)
        /\ pos = 1 /\ bad = ""
        /\ SweepInit(P)

\* The first reason why event e is not allowed ("" if it is).
SolveBad(e) ==
    IF Order /\ ~OwnerSolves(P, e.r, e.c) THEN "solved by a rank that does not own the cell"
    ELSE IF Order /\ ~InSweep(e.r) THEN "solved outside of a sweep"
    ELSE IF Order /\ ~NotYetSolved(e.c, swp[e.r]) THEN "solved twice in a sweep"
    ELSE IF Order /\ ~UpwindSolved(P, e.c, swp[e.r]) THEN "solved before an upwind neighbour"
    ELSE IF Flow /\ \E f \in Faces : ~InflowOk(P, e.c, swp[e.r], f, e.i[f])
         THEN "inflow is not the upwind neighbour's outflow"
    ELSE ""
BadOf(e) ==
    CASE e.k = "sv" -> SolveBad(e)
      [] e.k = "sb" -> IF Order /\ ~BeginOk(e.r) THEN "sweep begins in a sweep" ELSE ""
      [] e.k = "se" -> IF Order /\ ~EndOk(P, e.r) THEN "sweep ends before all pairs are solved" ELSE ""
      [] e.k = "xc" -> IF Order /\ ~ExchangeOk(e.r) THEN "exchange during a sweep" ELSE ""
      [] e.k = "end" -> IF Order /\ \E r \in RankSet(P) : busy[r] THEN "sweep never ends" ELSE ""
Eff(e) ==
    CASE e.k = "sv" -> SolveEff(e.r, e.c, e.o)
      [] e.k = "sb" -> BeginEff(e.r)
      [] e.k = "se" -> EndEff(e.r)
      [] e.k = "xc" -> ExchangeEff(P, e.r)
      [] e.k = "end" -> UNCHANGED sweepVars

Next == /\ bad = "" /\ pos <= Len(Ev)
        /\ LET e == Ev[pos] b == BadOf(e) IN
             IF b = "" THEN Eff(e) /\ bad' = ""
             ELSE /\ bad' = b /\ UNCHANGED sweepVars
                  /\ PrintT(<<"BAD", Input.cases[kase].id, "angle", dir - 1, "event", pos, b, e>>)
        /\ pos' = pos + 1
        /\ UNCHANGED <<kase, dir>>

Accepted == bad = ""
===============================================================================
