------------------------------ MODULE PrioCheck ------------------------------
(* Priorities of a recorded run, and the order of its solves.  One behaviour   *)
(* per run and rank.  A case: [id, mesh, own, nr, omega, intra, inter,         *)
(* prio: cell -> angle -> decimal string, ev: rank -> sequence of              *)
(* [k: "sv", c, a] and [k: "se"], thr: rank -> angle -> thread]                *)
EXTENDS Priorities, Cases, TLC, Json, IOUtils

Input == JsonDeserialize(IOEnv.CASES)
Problems ==
    LET in == Input
        normals == Strict([k \in 1..Len(in.meshes) |-> NormalsOf(in.meshes[k])])
    IN Strict([k \in 1..Len(in.cases) |->
        LET cs == in.cases[k] IN
        [own |-> cs.own, nr |-> cs.nr, adj |-> in.meshes[cs.mesh].adj,
         side |-> SidesOf(normals[cs.mesh], cs.omega)]])
\* The priorities by the formulas (none for random ones).
Expected ==
    LET in == Input ps == Problems
    IN Strict([k \in 1..Len(in.cases) |->
        LET p == ps[k]
            na == Len(p.side)
            lev == Strict([a \in 1..na |-> Levels(p, a)])
            top == Max(UNION {{lev[a][c] : c \in CellSet(p)} : a \in 1..na})
            kind == in.cases[k].intra
        IN IF kind = 0 THEN << >>
           ELSE Strict(Priority(p, Strict([a \in 1..na |-> Intra(p, a, kind, lev[a], top)]), in.cases[k].inter, top))])

Firsts ==
    LET in == Input ps == Problems
    IN Strict([k \in 1..Len(in.cases) |-> Strict([r \in 1..in.cases[k].nr |-> FirstReady(ps[k], r)])])

VARIABLES kase, rank, pos, done, ready, bad
K == Input.cases[kase]
P == Problems[kase]
Ev == K.ev[rank]
Say(b, x) == IF b = "" THEN TRUE ELSE PrintT(<<"BAD", K.id, "rank", rank - 1, b, x>>)

Wrong == {<<c, a>> \in {x \in CellSet(P) : P.own[x] = rank} \X (1..Len(P.side)) :
              ~FEq(FDec(K.prio[c][a]), FInt(Expected[kase][a][c]))}
\* Random priorities: not all the same
RandomOk == LET mine == {c \in CellSet(P) : P.own[c] = rank} IN
    \/ Cardinality(mine) < 2
    \/ K.inter # 0
    \/ \E c, d \in mine : \E a, b \in 1..Len(P.side) : K.prio[c][a] # K.prio[d][b]

Init == /\ kase \in 1..Len(Input.cases) /\ rank \in 1..Input.cases[kase].nr
        /\ pos = 1 /\ done = {} /\ ready = Firsts[kase][rank]
        /\ IF K.intra # 0
           THEN LET w == Wrong IN
                /\ bad = IF w = {} THEN "" ELSE "priority differs from the formula"
                /\ IF w = {} THEN TRUE
                   ELSE LET x == CHOOSE y \in w : TRUE IN
                        Say(bad, <<"cell", x[1] - 1, "angle", x[2] - 1, "is", K.prio[x[1]][x[2]], "expected", Expected[kase][x[2]][x[1]]>>)
           ELSE bad = (IF RandomOk THEN "" ELSE "random priorities are constant") /\ Say(bad, "")

Next == /\ bad = "" /\ pos <= Len(Ev)
        /\ LET e == Ev[pos] IN
             IF e.k = "se" THEN done' = {} /\ ready' = Firsts[kase][rank] /\ bad' = ""
             ELSE /\ done' = done \cup {<<e.c, e.a>>}
                  /\ ready' = StillReady(P, ready, done', rank, e.c, e.a)
                  /\ bad' = IF K.thr[rank][e.a] = -1 \/ TakesHighest(K.prio, K.thr[rank], ready, e.c, e.a) THEN ""
                            ELSE "solved while a pair with higher priority was ready"
                  /\ Say(bad', <<"cell", e.c - 1, "angle", e.a - 1>>)
        /\ pos' = pos + 1 /\ UNCHANGED <<kase, rank>>
Accepted == bad = ""
==============================================================================
