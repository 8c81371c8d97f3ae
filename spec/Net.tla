--------------------------------- MODULE Net ---------------------------------
(* The message-passing layer as the program may use it: point-to-point         *)
(* messages that are delivered in order between two ranks (for each tag), and   *)
(* collective operations that all ranks call in the same order.                 *)
(*                                                                             *)
(* phase[r] counts the begins and ends of sweeps and the boundary exchanges    *)
(* rank r has gone through.  All ranks go through the same ones, so a message  *)
(* belongs to one phase on both sides.                                         *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES
    net,      \* <<src, dst>> -> messages on the way, oldest first
    open,     \* rank -> sends it has started and not completed
    phase,    \* rank -> phase
    colls,    \* the collective operations called so far, by the fastest rank
    ncoll,    \* rank -> number of collective operations it has called
    gone      \* ranks that have ended

netVars == <<net, open, phase, colls, ncoll, gone>>

Pairs(n) == (1..n) \X (1..n)
NetInit(n) ==
    /\ net = [p \in Pairs(n) |-> << >>]
    /\ open = [r \in 1..n |-> {}]
    /\ phase = [r \in 1..n |-> 0]
    /\ colls = << >>
    /\ ncoll = [r \in 1..n |-> 0]
    /\ gone = {}

\* A message: [m, tag, n (bytes), dt (type), h (content), ph (sender's phase)]
SendOk(n, r, to) == to \in 1..n /\ r \notin gone
SendEff(r, to, msg) ==
    /\ net' = [net EXCEPT ![<<r, to>>] = Append(@, [msg EXCEPT !.ph = phase[r]])]
    /\ open' = [open EXCEPT ![r] = @ \cup {[m |-> msg.m, h |-> msg.h]}]
    /\ UNCHANGED <<phase, colls, ncoll, gone>>

\* The send of message m is complete; its buffer still holds h.
Started(r, m) == \E x \in open[r] : x.m = m
Intact(r, m, h) == \E x \in open[r] : x.m = m /\ x.h = h
SendDoneEff(r, m) ==
    /\ open' = [open EXCEPT ![r] = {x \in @ : x.m # m}]
    /\ UNCHANGED <<net, phase, colls, ncoll, gone>>

OnTheWay(from, r, m) == \E i \in 1..Len(net[<<from, r>>]) : net[<<from, r>>][i].m = m
At(from, r, m) == CHOOSE i \in 1..Len(net[<<from, r>>]) : net[<<from, r>>][i].m = m
InOrder(from, r, m) ==
    LET c == net[<<from, r>>] i == At(from, r, m)
    IN \A j \in 1..(i-1) : c[j].tag # c[i].tag
SameMessage(from, r, msg) ==
    LET x == net[<<from, r>>][At(from, r, msg.m)]
    IN x.n = msg.n /\ x.dt = msg.dt /\ x.h = msg.h /\ x.tag = msg.tag
SamePhase(from, r, m) == net[<<from, r>>][At(from, r, m)].ph = phase[r]
RecvEff(from, r, m) ==
    /\ net' = [net EXCEPT ![<<from, r>>] =
                  LET i == At(from, r, m) IN SubSeq(@, 1, i-1) \o SubSeq(@, i+1, Len(@))]
    /\ UNCHANGED <<open, phase, colls, ncoll, gone>>

\* c describes the operation: [k, n, op, ph]
CollOk(r, c) == ncoll[r] < Len(colls) => colls[ncoll[r] + 1] = [c EXCEPT !.ph = phase[r]]
CollEff(r, c) ==
    /\ colls' = IF ncoll[r] < Len(colls) THEN colls ELSE Append(colls, [c EXCEPT !.ph = phase[r]])
    /\ ncoll' = [ncoll EXCEPT ![r] = @ + 1]
    /\ UNCHANGED <<net, open, phase, gone>>

PhaseEff(r) ==
    /\ phase' = [phase EXCEPT ![r] = @ + 1]
    /\ UNCHANGED <<net, open, colls, ncoll, gone>>

ExitEff(r) ==
    /\ gone' = gone \cup {r}
    /\ UNCHANGED <<net, open, phase, colls, ncoll>>

\* What must be true when the program has ended.
AllReceived == \A p \in DOMAIN net : net[p] = << >>
NothingOpen == \A r \in DOMAIN open : open[r] = {}
SameCollectives == \A r \in DOMAIN ncoll : ncoll[r] = Len(colls)
AllGone == \A r \in DOMAIN ncoll : r \in gone
==============================================================================
