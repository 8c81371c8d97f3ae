------------------------------ MODULE NetTrace -------------------------------
(* Is a recorded run a behaviour of Net?  One behaviour per recorded run.      *)
EXTENDS Net, TLC, Json, IOUtils

Input == JsonDeserialize(IOEnv.CASES)
Checks == IOEnv.CHECKS          \* "all", or "end": only that every rank ends normally
All == Checks # "end"

VARIABLES kase, pos, bad
vars == <<netVars, kase, pos, bad>>

Ev == Input[kase].ev
N == Input[kase].nr

Init == /\ kase \in 1..Len(Input)
        /\ pos = 1 /\ bad = ""
        /\ NetInit(N)

SendBad(e) ==
    IF ~SendOk(N, e.r, e.to) THEN "sent to a rank that does not exist" ELSE ""
DoneBad(e) ==
    IF ~Started(e.r, e.m) THEN "completes a send that was not started"
    ELSE IF ~Intact(e.r, e.m, e.h) THEN "send buffer changed before the send completed"
    ELSE ""
RecvBad(e) ==
    IF ~OnTheWay(e.from, e.r, e.m) THEN "received a message that was not sent, or twice"
    ELSE IF ~InOrder(e.from, e.r, e.m) THEN "received out of order"
    ELSE IF ~SameMessage(e.from, e.r, [m |-> e.m, n |-> e.n, dt |-> e.dt, h |-> e.h, tag |-> e.tag])
         THEN "received with another length, type, tag or content than sent"
    ELSE IF ~SamePhase(e.from, e.r, e.m) THEN "received in another sweep or exchange than sent"
    ELSE ""
BadOf(e) ==
    CASE e.k = "stuck" -> e.msg
      [] e.k \in {"send", "done", "recv", "coll"} /\ ~All -> ""
      [] e.k = "send" -> SendBad(e)
      [] e.k = "done" -> DoneBad(e)
      [] e.k = "recv" -> RecvBad(e)
      [] e.k = "coll" -> IF ~CollOk(e.r, [k |-> e.c, n |-> e.n, op |-> e.op, ph |-> 0])
                         THEN "another collective operation than the other ranks" ELSE ""
      [] e.k = "phase" -> ""
      [] e.k = "exit" -> IF e.rc # 0 THEN "rank ends with an error" ELSE ""
      [] e.k = "error" -> e.msg
      [] e.k = "end" ->
            IF ~AllGone THEN "a rank never ends"
            ELSE IF ~All THEN ""
            ELSE IF ~AllReceived THEN "a message is never received"
            ELSE IF ~NothingOpen THEN "a send is never completed"
            ELSE IF ~SameCollectives THEN "a rank calls fewer collective operations than another"
            ELSE ""
Eff(e) ==
    CASE e.k = "send" -> SendEff(e.r, e.to, [m |-> e.m, tag |-> e.tag, n |-> e.n, dt |-> e.dt, h |-> e.h, ph |-> 0])
      [] e.k = "done" -> SendDoneEff(e.r, e.m)
      [] e.k = "recv" -> RecvEff(e.from, e.r, e.m)
      [] e.k = "coll" -> CollEff(e.r, [k |-> e.c, n |-> e.n, op |-> e.op, ph |-> 0])
      [] e.k = "phase" -> PhaseEff(e.r)
      [] e.k = "exit" -> ExitEff(e.r)
      [] OTHER -> UNCHANGED netVars

Next == /\ bad = "" /\ pos <= Len(Ev)
        /\ LET e == Ev[pos] b == BadOf(e) IN
             IF b = "" THEN Eff(e) /\ bad' = ""
             ELSE /\ bad' = b /\ UNCHANGED netVars
                  /\ PrintT(<<"BAD", Input[kase].id, "event", pos, b, e>>)
        /\ pos' = pos + 1
        /\ UNCHANGED kase

Accepted == bad = ""
==============================================================================
