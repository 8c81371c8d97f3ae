----------------------------- MODULE PartitionCheck ----------------------------
(* Recorded partitionings.  A case: [id, mesh: words of the serial mesh, np,   *)
(* own: the part of every cell (empty: whatever the tool chose), nx, ny: the   *)
(* columns asked for (0: none), graph: if a graph was partitioned, its [n,     *)
(* parts, adj: cell -> neighbours, part: the answer], name, words: the         *)
(* parallel mesh written].                                                     *)
(* One state per part of a case, and one (part -1) for the case.               *)
EXTENDS Partition, TLC, Json, IOUtils
Input == JsonDeserialize(IOEnv.CASES)
VARIABLES kase, part, bad
K == Input[kase]

\* The meshes, read once.
S == Strict([k \in 1..Len(Input) |-> SerialMesh(Input[k].mesh)])
Fine(k) == /\ Readable("parallel", Input[k].name, Input[k].words) /\ Len(Input[k].words) >= 3
           /\ NumParts(Input[k].words) = Input[k].np /\ WellPlaced(Input[k].words)
P == Strict([k \in 1..Len(Input) |-> IF Fine(k) THEN Parts(Input[k].words) ELSE <<>>])
\* The assignment asked for, or the one the tool made (cells it lost: -1).
Holds == Strict([k \in 1..Len(Input) |-> [q \in Places(P[k]) |-> {HInt(At(P[k], q).cells[i].g) : i \in 1..Len(At(P[k], q).cells)}]])
Found(k, c) == LET w == {q \in Places(P[k]) : c \in Holds[k][q]}
               IN IF w = {} THEN -1 ELSE CHOOSE q \in w : TRUE
Own == Strict([k \in 1..Len(Input) |-> IF Input[k].own # <<>> \/ ~Fine(k) THEN Input[k].own
                                       ELSE [c \in 1..Len(S[k].cells) |-> Found(k, c - 1)]])

CaseBad ==
    IF ~Fine(kase) THEN <<"the file is not a mesh of as many parts as asked for", 0>>
    ELSE LET lost == {c \in Places(Own[kase]) : At(Own[kase], c) \notin 0..K.np-1} IN
         IF lost # {} THEN <<"a cell is in no part", CHOOSE c \in lost : TRUE>>
         ELSE IF K.nx > 0 /\ ~RightColumns(S[kase], Own[kase], K.nx, K.ny) THEN <<"the parts are not the columns", 0>>
         ELSE IF K.graph # <<>> /\ ~RightGraph(S[kase], K.np, K.graph[1]) THEN <<"the graph partitioned is not that of the mesh", 0>>
         ELSE IF K.graph # <<>> /\ K.graph[1].part # Own[kase] THEN <<"the parts are not those of the graph", 0>>
         ELSE <<"", 0>>
PartBad(k) ==
    LET p == At(P[kase], k)
        cs == {i \in 1..Len(p.cells) : ~RightCell(S[kase], p, p.cells[i])}
        fs == {i \in 1..Len(p.faces) : ~RightFace(S[kase], Own[kase], P[kase], k, p.faces[i])}
        ns == {i \in 1..Len(p.nodes) : ~RightNode(S[kase], p.nodes[i])}
    IN IF ~RightNumbers(S[kase], Own[kase], k, p) THEN <<"cells, faces or nodes missing, twice or too many", 0>>
       ELSE IF cs # {} THEN <<"cell", CHOOSE i \in cs : TRUE>>
       ELSE IF fs # {} THEN <<"face", CHOOSE i \in fs : TRUE>>
       ELSE IF ns # {} THEN <<"node", CHOOSE i \in ns : TRUE>>
       ELSE <<"", 0>>
Init == /\ kase \in 1..Len(Input)
        /\ part \in -1..K.np-1
        /\ LET b == IF part = -1 THEN CaseBad ELSE IF CaseBad[1] # "" THEN <<"", 0>> ELSE PartBad(part)
           IN /\ bad = b[1]
              /\ IF b[1] = "" THEN TRUE ELSE PrintT(<<"BAD", K.id, "part", part, b[1], b[2]>>)
Next == UNCHANGED <<kase, part, bad>>
Accepted == bad = ""
================================================================================
