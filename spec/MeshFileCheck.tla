----------------------------- MODULE MeshFileCheck -----------------------------
(* Files given to the readers and writers of the program, and what became of   *)
(* them.  A case: [id, kind, name, words, ranks, took: what was done with the  *)
(* file, refused: the reader gave up, got: what the reader holds, out: the     *)
(* file written from it [name, words, rest], full: a full description].        *)
(* Large files (plarge, clarge) are given by their words that are not zero.    *)
EXTENDS MeshFile, TLC, Json, IOUtils
Input == JsonDeserialize(IOEnv.CASES)
VARIABLES kase, bad
K == Input[kase]

CanRead == CASE K.took \in {"scopy", "sdump", "sinfo"} -> Readable("serial", K.name, K.words)
             [] K.took \in {"plarge", "clarge"} -> TRUE
             [] K.took \in {"pcopy", "pdump"} -> Readable("parallel", K.name, K.words)
             [] K.took \in {"collective", "info", "sweep"} -> CollectivelyReadable(K.name, K.words, K.ranks)

WrongCopy(n, w) == IF K.out.name # n THEN "the name written is wrong"
                   ELSE IF K.out.rest # 0 THEN "the length written is wrong"
                   ELSE IF K.out.words # w THEN "the words written are wrong"
                   ELSE ""
\* The tools print coordinates with six decimals.
SameX(x, y) == \A i \in 1..3 : FClose(x[i], y[i], FDec("1e-14"), FDec("5.1e-7"))
WithoutX(m) == [m EXCEPT !.nodes = [i \in 1..Len(m.nodes) |-> [m.nodes[i] EXCEPT !.x = <<>>]]]
\* A description: the counts, and (if it is full) every cell, face and node, numbered.
Count(n) == [i \in 1..n |-> i - 1]
Printed(got, m) ==
    IF ~K.full THEN got.mesh = [m EXCEPT !.cells = <<>>, !.faces = <<>>, !.nodes = <<>>] /\ got.labels = <<<<>>, <<>>, <<>>>>
    ELSE /\ Len(got.mesh.nodes) = Len(m.nodes)
         /\ Strict(WithoutX(got.mesh)) = Strict(WithoutX(m))
         /\ \A i \in 1..Len(m.nodes) : SameX(got.mesh.nodes[i].x, m.nodes[i].x)
         /\ got.labels = <<Count(Len(m.cells)), Count(Len(m.faces)), Count(Len(m.nodes))>>
Header(got, name) == got.name = SelectSeq(name, LAMBDA b : b # 0) /\ got.version = Version
AllPrinted(got, ms) == Len(got) = Len(ms) /\ \A i \in 1..Len(ms) : Printed(got[i], ms[i]) /\ got[i].part = i - 1

Judge ==
    IF ~CanRead THEN IF K.refused THEN "" ELSE "a file that must be refused is read"
    ELSE IF K.refused THEN "a good file is refused"
    ELSE CASE K.took = "sdump" -> IF K.got = SerialMesh(K.words) THEN "" ELSE "the mesh read is not the mesh of the file"
           [] K.took = "scopy" -> WrongCopy(SerialName, SerialWords(SerialMesh(K.words)))
           [] K.took = "pdump" -> IF K.got = [n |-> K.words[2], off |-> SubSeq(K.words, 3, 3 + NumParts(K.words)), parts |-> Parts(K.words)]
                                  THEN "" ELSE "the mesh read is not the mesh of the file"
           [] K.took = "pcopy" -> WrongCopy(ParallelName, ParallelWords(K.words[2], SubSeq(K.words, 3, 3 + NumParts(K.words)), Parts(K.words)))
           [] K.took = "collective" -> IF K.got = Parts(K.words) THEN "" ELSE "a rank does not hold its part"
           [] K.took = "sinfo" -> IF Printed(K.got, SerialMesh(K.words)) /\ Header(K.got, SerialName) THEN "" ELSE "the mesh printed is not the mesh of the file"
           [] K.took = "info" -> IF ~AllPrinted(K.got.seq.parts, Parts(K.words)) \/ ~Header(K.got.seq, ParallelName)
                                    \/ K.got.seq.n # K.words[2] \/ K.got.seq.off # SubSeq(K.words, 3, 3 + NumParts(K.words)) THEN "the mesh printed is not the mesh of the file"
                                 ELSE IF ~AllPrinted(K.got.col, Parts(K.words)) THEN "the parts printed are not those of the file" ELSE ""
           [] K.took = "sweep" -> ""
           [] K.took \in {"plarge", "clarge"} ->
                IF [i \in 1..Len(K.got) |-> [K.got[i] EXCEPT !.some = {@[j] : j \in 1..Len(@)}]] = LargeParts(Sparse(K.words))
                THEN "" ELSE "the large mesh read is not the mesh of the file"

Init == /\ kase \in 1..Len(Input)
        \* the checker's own files are as the format says
        /\ (CanRead /\ K.kind = "parallel" /\ K.took \notin {"plarge", "clarge"}) => Assert(WellPlaced(K.words), <<K.id, "ill-formed input">>)
        /\ bad = Judge
        /\ bad # "" => PrintT(<<"BAD", K.id, bad>>)
Next == UNCHANGED <<kase, bad>>
Accepted == bad = ""
================================================================================
