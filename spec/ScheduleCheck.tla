---------------------------- MODULE ScheduleCheck -----------------------------
(* Do the schedules that the ranks of a recorded run built execute correctly?  *)
EXTENDS Schedule, Cases, TLC, Json, IOUtils

Input == JsonDeserialize(IOEnv.CASES)
Problems ==
    LET in == Input
        normals == Strict([k \in 1..Len(in.meshes) |-> NormalsOf(in.meshes[k])])
    IN Strict([k \in 1..Len(in.cases) |->
        LET cs == in.cases[k] IN
        [own |-> cs.own, nr |-> cs.nr, limit |-> cs.limit, adj |-> in.meshes[cs.mesh].adj,
         side |-> SidesOf(normals[cs.mesh], cs.omega)]])

VARIABLES kase, pos, bad
P == Problems[kase]
S == Input.cases[kase].sched

ShapeBad == IF ~SameShape(P, S) THEN "ranks have different numbers of groups"
            ELSE IF \E g \in Groups(S) : ~SameSteps(P, S, g) THEN "ranks have different numbers of steps"
            ELSE ""
Say(b, x) == IF b = "" THEN TRUE ELSE PrintT(<<"BAD", Input.cases[kase].id, b, x>>)

Init == /\ kase \in 1..Len(Input.cases)
        /\ pos = 1
        /\ solvedIn = << >>
        /\ bad = ShapeBad /\ Say(bad, "")

EntryBad(r, g, s) ==
    LET st == S[r][g][s] IN
    IF ~WithinLimit(P, st.w) THEN "more pairs in a step than allowed"
    ELSE IF ~OwnCells(P, r, st.w) THEN "a cell of another rank is scheduled"
    ELSE IF ~Fresh(solvedIn, st.w) THEN "a pair is scheduled twice"
    ELSE IF ~Ordered(P, solvedIn, r, g, s, st.w) THEN "a pair is scheduled before an upwind neighbour"
    ELSE IF ~SendsRight(P, r, st) THEN "ranks sent to are not those of the downwind neighbours"
    ELSE IF ~RecvsRight(P, S, r, g, s) THEN "ranks received from are not those that send"
    ELSE ""
StepBad(s) ==
    LET bads == {<<EntryBad(e[1], e[2], s), e>> : e \in Entries(S, s)} \ {<<"", e>> : e \in Entries(S, s)}
    IN IF bads # {} THEN CHOOSE x \in bads : TRUE
       ELSE IF Cardinality({x.q : x \in PairsOf(S, s)}) # Cardinality(PairsOf(S, s)) THEN <<"a pair is in two groups", <<0, 0>> >>
       ELSE <<"", <<0, 0>> >>
EndBad == IF ~Complete(P) THEN "a pair is not in the schedule"
          ELSE IF ~OneGroupPerAngle(P) THEN "an angle is in two groups" ELSE ""

Next == /\ bad = "" /\ pos <= MaxStep(S) + 1
        /\ IF pos <= MaxStep(S)
           THEN LET b == StepBad(pos) IN
                IF b[1] = "" THEN ExecuteStep(S, pos) /\ bad' = ""
                ELSE bad' = b[1] /\ UNCHANGED solvedIn /\ Say(b[1], <<"step", pos, "rank", b[2][1] - 1, "group", b[2][2] - 1>>)
           ELSE bad' = EndBad /\ UNCHANGED solvedIn /\ Say(bad', "")
        /\ pos' = pos + 1
        /\ UNCHANGED kase
Accepted == bad = ""
===============================================================================
