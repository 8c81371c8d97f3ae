------------------------------ MODULE Priorities -----------------------------
(* The order in which a graph-traversal sweep takes its ready pairs.           *)
(*                                                                             *)
(* p: own (cell -> rank), nr, adj, side (angle -> cell -> face -> kind).       *)
EXTENDS Fp, Integers, Sequences, SequencesExt, FiniteSetsExt, FiniteSets

DownOf(p, a, c) == {p.adj[c][f] : f \in {x \in 1..4 : p.side[a][c][x] = "out"}} \ {0}
UpOf(p, a, c) == {p.adj[c][f] : f \in {x \in 1..4 : p.side[a][c][x] = "in"}} \ {0}
CellSet(p) == 1..Len(p.own)

\* ---- b-level: longest distance to a leaf of the whole graph -----------------
RECURSIVE LevelLayers(_, _, _)
LevelLayers(p, a, lev) ==
    LET todo == {c \in CellSet(p) : lev[c] = -1}
        now == {c \in todo : \A d \in DownOf(p, a, c) : lev[d] # -1}
    IN IF now = {} THEN lev
       ELSE LevelLayers(p, a, [c \in CellSet(p) |->
                IF c \in now THEN Max({0} \cup {lev[d] + 1 : d \in DownOf(p, a, c)}) ELSE lev[c]])
Levels(p, a) == LevelLayers(p, a, [c \in CellSet(p) |-> -1])

\* ---- descendant-seeking priorities: within the partition of c, from its -----
\* boundary backward; 0 when no descendant leaves the partition.
OffRank(p, a, c) == {d \in DownOf(p, a, c) : p.own[d] # p.own[c]}
OnRank(p, a, c) == DownOf(p, a, c) \ OffRank(p, a, c)
RECURSIVE SeekLayers(_, _, _, _, _, _, _)
SeekLayers(p, a, lev, scale, shift, step, v) ==
    LET todo == {c \in CellSet(p) : v[c] = -1}
        now == {c \in todo : \A d \in OnRank(p, a, c) : v[d] # -1}
    IN IF now = {} THEN v
       ELSE SeekLayers(p, a, lev, scale, shift, step, [c \in CellSet(p) |->
              IF c \notin now THEN v[c]
              ELSE Max({0} \cup {lev[d] * scale + shift : d \in OffRank(p, a, c)}
                           \cup {IF v[d] > 0 THEN v[d] - step ELSE 0 : d \in OnRank(p, a, c)})])
Seek(p, a, lev, scale, shift, step) ==
    SeekLayers(p, a, lev, scale, shift, step, [c \in CellSet(p) |-> -1])

\* ---- priorities within an angle -------------------------------------------
\* kind: 1 b-level, 2 BFDS, 3 DFDS, 4 DFHDS; top: the highest b-level.
Intra(p, a, kind, lev, top) ==
    CASE kind = 1 -> lev
      [] kind = 2 -> Seek(p, a, lev, 1, 0, 0)
      [] kind = 3 -> Seek(p, a, lev, 1, top, 1)
      [] kind = 4 -> Seek(p, a, lev, top, top, 1)

\* ---- priorities across angles --------------------------------------------------
\* kind: 0 interleaved, 1 by angle number, 2 by the highest priority that the
\* rank has in the angle.  intra: angle -> cell -> priority.  The rank's shift
\* of angle a.
Highest(p, r, intra, a) == Max({0} \cup {intra[a][c] : c \in {x \in CellSet(p) : p.own[x] = r}})
\* high: angle -> highest priority of the rank.
Shift(p, high, kind, top, a) ==
    LET n == Len(p.side) unit == top * Len(p.own) IN
    CASE kind = 0 -> 0
      [] kind = 1 -> (a - 1) * unit
      [] kind = 2 -> Cardinality({b \in 1..n : high[b] < high[a] \/ (high[b] = high[a] /\ b < a)}) * unit
Priority(p, intra, kind, top) ==
    LET high == Strict([r \in 1..p.nr |-> [a \in 1..Len(p.side) |-> IF kind = 2 THEN Highest(p, r, intra, a) ELSE 0]])
        sh == Strict([r \in 1..p.nr |-> [a \in 1..Len(p.side) |-> Shift(p, high[r], kind, top, a)]])
    IN [a \in 1..Len(p.side) |-> [c \in CellSet(p) |-> intra[a][c] + sh[p.own[c]][a]]]

\* ---- order of execution on a rank -----------------------------------------------
\* done: the <<cell, angle>> solved so far in this sweep; all neighbours upwind
\* of a pair are on the rank and solved.
SurelyReady(p, done, r, c, a) ==
    /\ p.own[c] = r /\ <<c, a>> \notin done
    /\ \A u \in UpOf(p, a, c) : p.own[u] = r /\ <<u, a>> \in done
FirstReady(p, r) ==
    {q \in {x \in CellSet(p) : p.own[x] = r} \X (1..Len(p.side)) : SurelyReady(p, {}, r, q[1], q[2])}
\* ready: the surely ready pairs before pair (c, a) was solved; done: with it.
StillReady(p, ready, done, r, c, a) ==
    (ready \ {<<c, a>>}) \cup {<<d, a>> : d \in {y \in DownOf(p, a, c) : p.own[y] = r /\ SurelyReady(p, done, r, y, a)}}
\* thr: angle -> thread.  No pair that is ready and waits on the thread of angle a
\* has a higher priority than pair (c, a).
TakesHighest(pri, thr, ready, c, a) ==
    \A q \in ready : thr[q[2]] = thr[a] => ~BLt(pri[c][a], pri[q[1]][q[2]])

\* ---- list scheduling: the pairs a rank takes in one step of a schedule -----------
\* earlier: angle -> cells of all ranks placed in earlier steps; mine: angle -> cells
\* of rank r placed; w: the pairs of rank r in this step, in order; a pair is ready
\* when its upwind neighbours on other ranks are in earlier steps, and those on its
\* own rank are placed.
ReadyFor(p, earlier, mine, r, c, a) ==
    /\ c \notin mine
    /\ \A u \in UpOf(p, a, c) : u \in earlier[a] \/ (p.own[u] = r /\ u \in mine)
RankCells(p, r) == {x \in CellSet(p) : p.own[x] = r}
\* The ready cells of each angle
ReadySet(p, earlier, mine, r) ==
    LET cells == RankCells(p, r)
    IN Strict([a \in 1..Len(p.side) |-> {c \in cells : ReadyFor(p, earlier, mine[a], r, c, a)}])
\* The highest priority among cells of an angle; -1: none.
Top(pri, a, cells) == Max({-1} \cup {pri[a][c] : c \in cells})
Tops(pri, ready) == Strict([a \in 1..Len(ready) |-> Top(pri, a, ready[a])])
\* First position of w (Len(w)+1: the end) at which the rank does not take a
\* ready pair of the highest priority, or stops although it could go on; 0: none.
Misplaced(p, pri, earlier, mine, r, w, limit) ==
    LET ready == ReadySet(p, earlier, mine, r)
        \* s: cells placed, ready cells and highest priority of the ready cells of each
        \* angle, number of pairs seen, position of the first wrong one
        Place(s, q) ==
            LET c == q[1]  a == q[2]  i == s.i + 1 IN
            IF s.at # 0 THEN s
            ELSE IF c \notin s.ready[a] \/ \E b \in 1..Len(s.top) : s.top[b] > pri[a][c] THEN [s EXCEPT !.at = i]
            ELSE LET m == s.mine[a] \cup {c}
                     left == (s.ready[a] \ {c}) \cup {y \in DownOf(p, a, c) : p.own[y] = r /\ ReadyFor(p, earlier, m, r, y, a)}
                 IN [s EXCEPT !.mine[a] = m, !.ready[a] = left, !.top[a] = Top(pri, a, left), !.i = i]
        end == FoldLeft(Place, [mine |-> mine, ready |-> ready, top |-> Tops(pri, ready), i |-> 0, at |-> 0], w)
    IN IF end.at # 0 THEN end.at
       ELSE IF Len(w) < limit /\ \E a \in 1..Len(end.ready) : end.ready[a] # {} THEN Len(w) + 1 ELSE 0
==============================================================================
