------------------------------- MODULE DeckTrace -------------------------------
(* Decks given to the program.  A case: [id, deck (codes), refused, got: for   *)
(* each rank, the values it holds, said: the line numbers in its messages].    *)
EXTENDS Deck, TLC, Json, IOUtils
Input == JsonDeserialize(IOEnv.CASES)
VARIABLES kase, pos, bad
K == Input[kase]
AllLines == Strict([k \in 1..Len(Input) |-> Lines(Input[k].deck)])

Init == kase \in 1..Len(Input) /\ pos = 1 /\ bad = "" /\ NothingRead
Wrong(g) == {k \in Needed : IF k \in Reals THEN ~FEq(g[k], Value(k)) ELSE g[k] # Value(k)}
Judge == IF ~Acceptable THEN IF K.refused
                             THEN IF trouble \ {K.said[i] : i \in 1..Len(K.said)} = {} THEN <<"end", 0>> ELSE <<"the message does not name the bad line", trouble>>
                             ELSE <<"a bad deck is accepted", <<trouble, {k \in Needed : IF k \in DOMAIN entries THEN ~GoodValue(k, entries[k]) ELSE TRUE}>> >>
         ELSE IF K.refused THEN <<"a good deck is refused", 0>>
         ELSE LET w == {r \in 1..Len(K.got) : Wrong(K.got[r]) # {}} IN
              IF w # {} THEN <<"a value is not the one written", LET r == CHOOSE r \in w : TRUE IN
                                 <<r - 1, {<<k, K.got[r][k], Value(k)>> : k \in Wrong(K.got[r])}>> >>
              ELSE <<"end", 0>>
Line == /\ pos <= Len(AllLines[kase])
        /\ ReadLine(pos, AllLines[kase][pos])
        /\ UNCHANGED bad
End == /\ pos = Len(AllLines[kase]) + 1
       /\ UNCHANGED <<entries, trouble>>
       /\ LET b == Judge IN bad' = b[1] /\ IF b[1] = "end" THEN TRUE ELSE PrintT(<<"BAD", K.id, b[1], b[2]>>)
Next == bad = "" /\ (Line \/ End) /\ pos' = pos + 1 /\ UNCHANGED kase
Accepted == bad \in {"", "end"}
================================================================================
