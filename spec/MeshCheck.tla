------------------------------- MODULE MeshCheck ------------------------------
(* Checks recorded loaded meshes against Mesh: one state per rank and per      *)
(* loaded cell, and one per run for the side numbers.                          *)
EXTENDS Mesh, TLC, Json, IOUtils

Input == JsonDeserialize(IOEnv.CASES)

VARIABLES kase, rank, cell, bad

MM == Input[kase].mesh
LL == Input[kase].loaded

CellBad(c) ==
    IF ~RightNodes(MM, c) THEN "nodes or material"
    ELSE IF \E f \in 1..4 : ~RightNeighbour(MM, LL, rank, c, f) THEN "neighbour"
    ELSE IF \E f \in 1..4 : ~RightSide(MM, LL, rank, c, f) THEN "side number"
    ELSE IF \E f \in 1..4 : ~RightVertices(MM, LL, rank, c, f) THEN "face vertices"
    ELSE IF ~RightGeometry(MM, c) THEN "volume or area"
    ELSE IF \E f \in 1..4 : ~RightDirections(MM, c, f) THEN "direction of flow through a face"
    ELSE IF \E f \in 1..4 : ~Agreed(MM, LL, c, f) THEN "the cells of a face disagree on the direction of flow"
    ELSE ""

\* Faces with the same number are the two sides of one face.
SidesDistinct ==
    LET all == UNION {UNION {{<<LL[r][i].f[f].gs, LL[r][i].g, f>> : f \in 1..4} : i \in 1..Len(LL[r])} : r \in 1..MM.nr}
        used == {s \in all : s[1] # -1}
    IN \A s \in used, t \in used :
         s[1] = t[1] => (s = t \/ (MM.adj[s[2]][s[3]] = t[2] /\ MM.adjf[s[2]][s[3]] = t[3]))

Init == /\ kase \in 1..Len(Input)
        /\ rank \in 0..MM.nr
        /\ cell \in IF rank = 0 THEN {0} ELSE 0..Len(LL[rank])
        /\ bad = IF rank = 0 THEN IF SidesDistinct THEN "" ELSE "two faces with one side number"
                 ELSE IF cell = 0 THEN IF RightCells(MM, LL, rank) THEN "" ELSE "cells of the rank"
                 ELSE CellBad(LL[rank][cell])
        /\ bad # "" => PrintT(<<"BAD", Input[kase].id, "rank", rank - 1, "cell",
                                IF rank # 0 /\ cell # 0 THEN LL[rank][cell].g - 1 ELSE -1, bad>>)
Next == UNCHANGED <<kase, rank, cell, bad>>
Accepted == bad = ""
===============================================================================
