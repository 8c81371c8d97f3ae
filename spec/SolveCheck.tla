------------------------------ MODULE SolveCheck -------------------------------
(* Do recorded solves satisfy the equations of LocalSolve?  A case: [id, x, v  *)
(* (mesh), omega, solves: sequence of [c, a, t, q, p: vertex -> group, b: face *)
(* -> vertex -> group -> inflow]].                                             *)
EXTENDS LocalSolve, TLC, Json, IOUtils
Input == JsonDeserialize(IOEnv.CASES)
Shapes == LET in == Input IN Strict([k \in 1..Len(in) |->
    [c \in 1..Len(in[k].v) |-> Shape([i \in 1..4 |-> in[k].x[in[k].v[c][i]]])]])

VARIABLES kase, pos, bad
K == Input[kase]
Init == kase \in 1..Len(Input) /\ pos = 1 /\ bad = ""

Group(l, g) == [v \in 1..4 |-> l[v][g]]
Inflow(e, g) == [f \in 1..4 |-> [j \in 1..4 |->
    IF j = f THEN FInt(0) ELSE e.b[f][j][g]]]
BadOf(e) ==
    LET s == Shapes[kase][e.c] o == K.omega[e.a] IN
    LET w == {g \in 1..Len(e.p[1]) : ~Solved(s, o, e.t, Group(e.p, g), Inflow(e, g), Group(e.q, g))}
    IN IF w = {} THEN <<"", 0>>
         ELSE LET g == CHOOSE x \in w : TRUE IN
              <<"flux does not satisfy the equations of the cell", Residual(s, o, e.t, Group(e.p, g), Inflow(e, g), Group(e.q, g))>>
Next == /\ bad = "" /\ pos <= Len(K.solves)
        /\ LET e == K.solves[pos] b == BadOf(e) IN
           bad' = b[1] /\ IF b[1] = "" THEN TRUE ELSE PrintT(<<"BAD", K.id, "cell", e.c - 1, "angle", e.a - 1, b[1], b[2]>>)
        /\ pos' = pos + 1 /\ UNCHANGED kase
Accepted == bad = ""
================================================================================
