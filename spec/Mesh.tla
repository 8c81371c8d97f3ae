--------------------------------- MODULE Mesh ---------------------------------
(* What a rank must hold after loading its part of a mesh.                     *)
(*                                                                             *)
(* The mesh M: x (node -> point), v (cell -> its four nodes), mat (cell ->     *)
(* material), adj, adjf (cell -> face -> neighbour or 0, its face), own (cell  *)
(* -> rank), nr ranks.                                                         *)
(* What rank r holds, L[r]: a sequence of loaded cells                         *)
(*   [g cell, m material, v node points, vol, f: four faces], a face being     *)
(*   [ac adjacent cell (global, 0: none here), af its face (0), ar adjacent    *)
(*    rank (0: none), gs side number (-1: none), sc the side's cell, rt, area, *)
(*    f2c, c2f, nv vertex maps, xc, xf (cell and face across a partition       *)
(*    boundary, local to the other rank, 0: none), on (angle -> direction .    *)
(*    normal), oi, ii (angle -> is outgoing / incoming)]                       *)
EXTENDS Geometry, FiniteSets

Rel == FDec("1e-9")
Tiny == FDec("1e-300")
Angular == FDec("1e-11")

OwnedBy(M, r) == {c \in 1..Len(M.own) : M.own[c] = r}
CellsOf(L, r) == {L[r][i].g : i \in 1..Len(L[r])}

\* Rank r holds its cells, each once.
RightCells(M, L, r) ==
    /\ CellsOf(L, r) = OwnedBy(M, r)
    /\ Len(L[r]) = Cardinality(OwnedBy(M, r))

RightNodes(M, c) == /\ \A i \in 1..4 : c.v[i] = M.x[M.v[c.g][i]]
                    /\ c.m = M.mat[c.g]

PointsOf(M, g) == [i \in 1..4 |-> M.x[M.v[g][i]]]

\* The other side of face f of cell g, as the mesh file has it.
Across(M, g, f) == [c |-> M.adj[g][f], f |-> M.adjf[g][f]]

\* The node of vertex i of cell g, and of face vertex i of face f of loaded c
FaceNode(M, c, f, i) == M.v[c.g][c.f[f].f2c[i]]

RightNeighbour(M, L, r, c, f) ==
    LET n == Across(M, c.g, f) x == c.f[f] IN
    IF n.c = 0 THEN x.ac = 0 /\ x.ar = 0
    ELSE IF M.own[n.c] = r THEN x.ac = n.c /\ x.af = n.f /\ x.ar = r
    ELSE /\ x.ac = 0 /\ x.ar = M.own[n.c]
         /\ x.xc \in 1..Len(L[x.ar]) /\ L[x.ar][x.xc].g = n.c
         /\ x.xf = n.f

\* Faces on the boundary of a partition have a side: a number of their own that
\* both ranks use.
HasSide(M, r, c, f) == LET n == Across(M, c.g, f).c IN n = 0 \/ M.own[n] # r
RightSide(M, L, r, c, f) ==
    LET x == c.f[f] n == Across(M, c.g, f) IN
    IF ~HasSide(M, r, c, f) THEN x.gs = -1
    ELSE /\ x.gs # -1 /\ x.sc = c.g /\ x.rt = 1
         /\ (n.c # 0 => \E i \in 1..Len(L[M.own[n.c]]) :
                          /\ L[M.own[n.c]][i].g = n.c
                          /\ L[M.own[n.c]][i].f[n.f].gs = x.gs)

\* Face vertices: three different vertices of the cell other than the opposite
\* one, the two maps inverse to each other, and the same nodes on both sides.
RightVertices(M, L, r, c, f) ==
    LET x == c.f[f] n == Across(M, c.g, f) IN
    /\ {x.f2c[i] : i \in 1..3} = (1..4) \ {f}
    /\ \A i \in 1..3 : x.c2f[x.f2c[i]] = i
    /\ n.c # 0 =>
         LET o == M.own[n.c]
             d == CHOOSE i \in 1..Len(L[o]) : L[o][i].g = n.c
         IN \A i \in 1..3 : FaceNode(M, L[o][d], n.f, i) = FaceNode(M, c, f, i)
    /\ (n.c # 0 /\ M.own[n.c] = r) =>
         \A i \in 1..3 : M.v[n.c][x.nv[i]] = FaceNode(M, c, f, i)

RightGeometry(M, c) ==
    LET p == PointsOf(M, c.g) IN
    /\ FClose(c.vol, Volume(p), Rel, Tiny)
    /\ \A f \in 1..4 : FClose(c.f[f].area, FaceArea(p, f), Rel, Tiny)

RightDirections(M, c, f) ==
    LET n == Normal(PointsOf(M, c.g), f) x == c.f[f]
    IN \A a \in 1..Len(M.omega) :
        LET d == FDot(M.omega[a], n) IN
        \* the value, except that a direction parallel to the face has the value 0
        /\ \/ FClose(x.on[a], d, FInt(0), Angular)
           \/ FEq(x.on[a], FInt(0)) /\ FLt(FAbs(d), FDec("1.1e-10"))
        /\ FLt(FAbs(d), FDec("0.9e-10")) => FEq(x.on[a], FInt(0))
        /\ (x.oi[a] = 1) = FLt(FInt(0), x.on[a])
        /\ (x.ii[a] = 1) = FLt(x.on[a], FInt(0))

\* Both cells of a face agree on the direction of flow.
Agreed(M, L, c, f) ==
    LET n == Across(M, c.g, f) IN
    n.c # 0 =>
      LET o == M.own[n.c]
          d == CHOOSE i \in 1..Len(L[o]) : L[o][i].g = n.c
      IN /\ L[o][d].f[n.f].oi = c.f[f].ii
         /\ L[o][d].f[n.f].ii = c.f[f].oi
===============================================================================
