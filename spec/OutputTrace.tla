------------------------------ MODULE OutputTrace ------------------------------
(* The output of recorded runs.  A case: [id, nc, na, ng, ev: solves [c, a,    *)
(* p: vertex -> group -> value], asked (output requested), before, after:      *)
(* digests of the file before and after the run ("" if there is none), bytes:  *)
(* length of the file, name, words, writes].                                   *)
EXTENDS OutputFile, TLC, Json, IOUtils
Input == JsonDeserialize(IOEnv.CASES)
VARIABLES kase, pos, bad
K == Input[kase]
Init == kase \in 1..Len(Input) /\ pos = 1 /\ bad = "" /\ flux = NoSolution(K)

EndBad ==
    IF ~K.asked THEN IF K.after # K.before THEN <<"the file changes though no output was requested", 0>> ELSE <<"end", 0>>
    ELSE IF K.after = "" THEN <<"no output file", 0>>
    ELSE IF ~RightHeader(K, K.name, K.words) THEN <<"wrong header", <<K.name, SubSeq(K.words, 1, IF Len(K.words) < 8 THEN Len(K.words) ELSE 8)>> >>
    ELSE IF Len(K.words) # FileLength(K) \/ K.bytes # 8 * FileLength(K) THEN <<"wrong length", K.bytes>>
    ELSE LET w == WrongEntries(K, K.words) IN
         IF w # {} THEN <<"value is not the final flux", CHOOSE x \in w : TRUE>>
         ELSE LET t == WrittenTwice(K.writes) IN
              IF t # {} THEN <<"two ranks write the same entry", CHOOSE x \in t : TRUE>> ELSE <<"end", 0>>
Step == /\ pos <= Len(K.ev)
        /\ LET e == K.ev[pos] IN Solve(e.c, e.a, e.p)
        /\ UNCHANGED bad
End == /\ pos = Len(K.ev) + 1
       /\ LET b == EndBad IN bad' = b[1] /\ IF b[1] = "end" THEN TRUE ELSE PrintT(<<"BAD", K.id, b[1], b[2]>>)
       /\ UNCHANGED flux
Next == bad = "" /\ (Step \/ End) /\ pos' = pos + 1 /\ UNCHANGED kase
Accepted == bad \in {"", "end"}
================================================================================
