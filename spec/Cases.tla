-------------------------------- MODULE Cases --------------------------------
(* Tables of a recorded problem used by several trace specifications.          *)
EXTENDS Geometry

\* m: a mesh with nodes x and cells v (see mesh_case in tools/runs.py)
PointsIn(m, c) == [i \in 1..4 |-> m.x[m.v[c][i]]]
NormalsOf(m) == [c \in 1..Len(m.v) |-> [f \in 1..4 |-> Normal(PointsIn(m, c), f)]]

\* direction -> cell -> face -> "in", "out" or "along"
SidesOf(normals, omega) ==
    [a \in 1..Len(omega) |-> [c \in 1..Len(normals) |-> [f \in 1..4 |-> Side(omega[a], normals[c][f])]]]
==============================================================================
