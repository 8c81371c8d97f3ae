------------------------------ MODULE KrylovTrace ------------------------------
(* Are the calls of the Krylov solver in a recorded run those of Krylov?       *)
(* A case: [id, mesh, own, nr, omega, wt, sig, ng, algo, si, iterMax, errMax,  *)
(* ddIterMax, ddErrMax, maps: kind -> rank -> unknowns, sweeps: [c][a] ->      *)
(* [q, p, b], ev: sequence of [k "begin", knd, b, x0, nz, rtol, maxit, s],     *)
(* [k "apply", x, y, s, n], [k "end", x, s, converged]].                       *)
EXTENDS Krylov, Cases, TLC, Json, IOUtils

Input == JsonDeserialize(IOEnv.CASES)
Problems == LET in == Input
                normals == Strict([k \in 1..Len(in.meshes) |-> NormalsOf(in.meshes[k])])
            IN Strict([k \in 1..Len(in.cases) |->
    LET cs == in.cases[k] m == in.meshes[cs.mesh] IN
    [points |-> [c \in 1..Len(m.v) |-> PointsIn(m, c)], omega |-> cs.omega, wt |-> cs.wt,
     sigT |-> [c \in 1..Len(m.v) |-> FDec(cs.sig[m.mat[c]].t)], sigS |-> [c \in 1..Len(m.v) |-> FDec(cs.sig[m.mat[c]].s)],
     ng |-> cs.ng, iterMax |-> cs.iterMax, errMax |-> FDec(cs.errMax), algo |-> cs.algo, si |-> cs.si,
     ddIterMax |-> cs.ddIterMax, ddErrMax |-> FDec(cs.ddErrMax), own |-> cs.own, nr |-> cs.nr, adj |-> m.adj,
     side |-> SidesOf(normals[cs.mesh], cs.omega),
     same |-> [c \in 1..Len(m.v) |-> [f \in 1..4 |-> [v \in 1..4 |->
        IF v = f \/ m.adj[c][f] = 0 THEN 0 ELSE CHOOSE w \in 1..4 : m.v[m.adj[c][f]][w] = m.v[c][v]]]]]])
\* where the scalar unknowns are, for the kinds that have them
Indices == LET in == Input IN Strict([k \in 1..Len(in.cases) |->
    [scalar |-> IF in.cases[k].maps.scalar = << >> THEN << >> ELSE ScalarIndex(Problems[k], in.cases[k].maps.scalar),
     both |-> IF in.cases[k].maps.both = << >> THEN << >> ELSE ScalarIndex(Problems[k], in.cases[k].maps.both),
     boundary |-> << >>, none |-> << >>]])

VARIABLES kase, pos, bad
K == Input.cases[kase]
P == Problems[kase]
Init == /\ kase \in 1..Len(Input.cases) /\ pos = 1 /\ bad = ""
        /\ KrylovInit(P)

BadOf(e) ==
    CASE e.k = "begin" -> BeginBad(P, e.knd, K.maps[e.knd], e.b, e.x0, e.nz, e.rtol, e.maxit, K.sweeps[e.s])
      [] e.k = "apply" -> ApplyBad(P, K.maps[kind], Indices[kase][kind], e.x, e.y, K.sweeps[e.s], e.n)
      [] e.k = "end" -> SolutionBad(P, K.maps[kind], Indices[kase][kind], e.x, K.sweeps[e.s], e.converged)
Eff(e) ==
    CASE e.k = "begin" -> BeginEff(e.knd, e.b)
      [] e.k = "apply" -> UNCHANGED krylovVars
      [] e.k = "end" -> SolutionEff(P, Indices[kase][kind], e.x, K.sweeps[e.s])
Next == /\ bad = "" /\ pos <= Len(K.ev)
        /\ UNCHANGED kase
        /\ LET e == K.ev[pos] b == BadOf(e) IN
           /\ bad' = b
           /\ IF b = "" THEN Eff(e) ELSE PrintT(<<"BAD", K.id, "event", pos, e.k, kind, b>>) /\ UNCHANGED krylovVars
        /\ pos' = pos + 1
Accepted == bad = ""
================================================================================
