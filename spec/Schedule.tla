------------------------------ MODULE Schedule -------------------------------
(* Executing a precomputed sweep schedule: in step s every rank solves the     *)
(* pairs of its list in order, then sends to the ranks of its send list and    *)
(* receives from the ranks of its receive list.  What was solved on another    *)
(* rank is usable one step later.                                              *)
(*                                                                             *)
(* p: the problem: own (cell -> rank), adj (cell -> face -> cell or 0), nr     *)
(* ranks, side (angle -> cell -> face -> kind), limit pairs per step;          *)
(* S: rank -> group -> sequence of steps [w: sequence of <<cell, angle>>,      *)
(* s: ranks sent to, v: ranks received from].                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES solvedIn    \* <<cell, angle>> -> [g, s] group and step, or absent

Elems(q) == {q[i] : i \in 1..Len(q)}
NoDuplicates(q) == Cardinality(Elems(q)) = Len(q)
Upwind(p, c, a) == {p.adj[c][f] : f \in {x \in 1..4 : p.side[a][c][x] = "in"}} \ {0}
Downwind(p, c, a) == {p.adj[c][f] : f \in {x \in 1..4 : p.side[a][c][x] = "out"}} \ {0}
Groups(S) == 1..Len(S[1])
StepOf(S, r, g, s) == S[r][g][s]

\* ---- shape ----------------------------------------------------------------
SameShape(p, S) ==
    /\ Len(S) = p.nr
    /\ \A r \in 1..p.nr : Len(S[r]) = Len(S[1])
SameSteps(p, S, g) == \A r \in 1..p.nr : Len(S[r][g]) = Len(S[1][g])
MaxStep(S) == LET n == {Len(S[1][g]) : g \in Groups(S)} IN CHOOSE m \in n : \A k \in n : k <= m

\* ---- one step of one rank ---------------------------------------------------
WithinLimit(p, w) == Len(w) <= p.limit
OwnCells(p, r, w) == \A i \in 1..Len(w) : p.own[w[i][1]] = r
KnownBefore(done, g, s, q) == q \in DOMAIN done /\ done[q].g = g /\ done[q].s < s
\* Are the pairs of list w of rank r ordered?
Ordered(p, done, r, g, s, w) ==
    \A i \in 1..Len(w) :
        LET c == w[i][1] a == w[i][2] IN
        \A u \in Upwind(p, c, a) :
            \/ KnownBefore(done, g, s, <<u, a>>)
            \/ p.own[u] = r /\ \E j \in 1..(i-1) : w[j] = <<u, a>>
Fresh(done, w) == NoDuplicates(w) /\ \A i \in 1..Len(w) : w[i] \notin DOMAIN done

\* ---- messages of one step ---------------------------------------------------
Targets(p, r, w) == UNION {{p.own[d] : d \in Downwind(p, w[i][1], w[i][2])} : i \in 1..Len(w)} \ {r}
SendsRight(p, r, st) == NoDuplicates(st.s) /\ Elems(st.s) = Targets(p, r, st.w)
RecvsRight(p, S, r, g, s) ==
    /\ NoDuplicates(S[r][g][s].v)
    /\ Elems(S[r][g][s].v) = {q \in 1..p.nr : r \in Elems(S[q][g][s].s)}

\* ---- action -------------------------------------------------------------------
Entries(S, s) == UNION {{<<r, g>> : r \in 1..Len(S)} : g \in {x \in Groups(S) : s <= Len(S[1][x])}}
PairsOf(S, s) == UNION {{[q |-> q, g |-> e[2]] : q \in Elems(S[e[1]][e[2]][s].w)} : e \in Entries(S, s)}
ExecuteStep(S, s) ==
    LET new == PairsOf(S, s)
        qs == {x.q : x \in new}
    IN solvedIn' = [q \in qs |-> [g |-> (CHOOSE x \in new : x.q = q).g, s |-> s]] @@ solvedIn

\* ---- at the end -----------------------------------------------------------------
Complete(p) == DOMAIN solvedIn = {<<c, a>> : c \in 1..Len(p.own), a \in 1..Len(p.side)}
OneGroupPerAngle(p) ==
    \A a \in 1..Len(p.side) :
        Cardinality({solvedIn[<<c, a>>].g : c \in 1..Len(p.own)}) = 1
==============================================================================
