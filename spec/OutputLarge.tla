------------------------------ MODULE OutputLarge ------------------------------
(* Output files of more than 2^31 bytes of runs without an iteration, whose    *)
(* flux is zero.  A case: [id, nc, na, ng, name, words: those of the header,   *)
(* length: of the file, in words, some: words of the file that are not zero    *)
(* [position, word], writes: [r, off, n] in words].                            *)
EXTENDS OutputFile, TLC, Json, IOUtils
Input == JsonDeserialize(IOEnv.CASES)
VARIABLES kase, bad
K == Input[kase]
CellWords == K.na * 4 * K.ng
\* two writes of different ranks to the same place, the header apart
Twice == {<<i, j>> \in (1..Len(K.writes)) \X (1..Len(K.writes)) :
    i < j /\ K.writes[i].r # K.writes[j].r /\ Overlap(K.writes[i], K.writes[j])
          /\ K.writes[i].off + K.writes[i].n > HeaderWords /\ K.writes[j].off + K.writes[j].n > HeaderWords}
Judge ==
    IF ~RightHeader(K, K.name, K.words) THEN "wrong header"
    ELSE IF K.length # HeaderWords + K.nc * CellWords THEN "wrong length"
    ELSE IF K.some # <<>> THEN "value is not the final flux"
    ELSE IF \E i \in 1..Len(K.writes) : K.writes[i].off < 0 \/ K.writes[i].off + K.writes[i].n > K.length THEN "written outside the file"
    ELSE IF Reach(K.writes, 0) # K.length THEN "a part of the file is not written"
    ELSE IF Twice # {} THEN "two ranks write the same entry"
    ELSE ""
Init == /\ kase \in 1..Len(Input)
        /\ flux = <<>>
        /\ bad = Judge
        /\ IF bad = "" THEN TRUE ELSE PrintT(<<"BAD", K.id, bad>>)
Next == UNCHANGED <<kase, bad, flux>>
Accepted == bad = ""
================================================================================
