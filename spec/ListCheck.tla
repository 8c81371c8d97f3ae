------------------------------ MODULE ListCheck ------------------------------
(* Do the precomputed schedules of a recorded run take the ready pairs in the   *)
(* order of their priorities, as many per step as allowed?  One behaviour per  *)
(* run and group of angles.  A case: [id, mesh, own, nr, omega, intra, inter,  *)
(* limit, groups: sequence of [ang: angles in ascending order, steps: sequence *)
(* of (rank -> sequence of <<cell, index of angle in the group>>)]]            *)
EXTENDS Priorities, Cases, TLC, Json, IOUtils

Input == JsonDeserialize(IOEnv.CASES)
\* The graph of one group
Problems ==
    LET in == Input
        normals == Strict([k \in 1..Len(in.meshes) |-> NormalsOf(in.meshes[k])])
    IN Strict([k \in 1..Len(in.cases) |->
        LET cs == in.cases[k]
            side == Strict(SidesOf(normals[cs.mesh], cs.omega))
        IN Strict([g \in 1..Len(cs.groups) |->
            [own |-> cs.own, nr |-> cs.nr, adj |-> in.meshes[cs.mesh].adj,
             side |-> [i \in 1..Len(cs.groups[g].ang) |-> side[cs.groups[g].ang[i]]]]])])
Expected ==
    LET in == Input ps == Problems
    IN Strict([k \in 1..Len(in.cases) |->
        Strict([g \in 1..Len(in.cases[k].groups) |->
            LET p == ps[k][g]
                na == Len(p.side)
                lev == Strict([a \in 1..na |-> Levels(p, a)])
                top == Max({0} \cup UNION {{lev[a][c] : c \in CellSet(p)} : a \in 1..na})
                kind == in.cases[k].intra
            IN Strict(Priority(p, Strict([a \in 1..na |-> Intra(p, a, kind, lev[a], top)]), in.cases[k].inter, top))])])

VARIABLES kase, grp, pos, placed, bad
K == Input.cases[kase]
G == K.groups[grp]
P == Problems[kase][grp]

Init == /\ kase \in 1..Len(Input.cases) /\ grp \in 1..Len(Input.cases[kase].groups)
        /\ pos = 1 /\ placed = [a \in 1..Len(G.ang) |-> {}] /\ bad = ""
RankBad(r, w) ==
    LET mine == Strict([a \in 1..Len(placed) |-> {c \in placed[a] : P.own[c] = r}])
    IN Misplaced(P, Expected[kase][grp], placed, mine, r, w, K.limit)
Next == /\ bad = "" /\ pos <= Len(G.steps)
        /\ LET st == G.steps[pos]
               wrong == {r \in 1..K.nr : RankBad(r, st[r]) # 0}
           IN /\ bad' = IF wrong = {} THEN "" ELSE "a step does not take the ready pairs by priority"
              /\ IF wrong = {} THEN TRUE
                 ELSE LET r == CHOOSE x \in wrong : TRUE IN
                      PrintT(<<"BAD", K.id, bad', "group", grp - 1, "step", pos, "rank", r - 1, "position", RankBad(r, st[r])>>)
              /\ placed' = [a \in 1..Len(placed) |-> placed[a] \cup UNION {{st[r][i][1] : i \in {x \in 1..Len(st[r]) : st[r][x][2] = a}} : r \in 1..K.nr}]
        /\ pos' = pos + 1 /\ UNCHANGED <<kase, grp>>
Accepted == bad = ""
==============================================================================
