------------------------------ MODULE MCClient ------------------------------
(***************************************************************************)
(* The design of the client: a queue, a connection that sends from it and  *)
(* answers keep-alives while it receives, and a timer per request, with a  *)
(* provider that sends answers and keep-alives, closes, and may cut what   *)
(* it sends anywhere.  All of what it does is followed by the observer of  *)
(* Client, which is what judges the real client: nothing of the design     *)
(* may be bad for it.                                                      *)
(*                                                                         *)
(* flaw is what is wrong with the design, "none" as a rule.  Every other   *)
(* one has to be found by the observer in some history: see Found.         *)
(*                                                                         *)
(* What the user and the provider did is printed as a script for the real  *)
(* client; PROP chooses what they do.  The model has room for MaxWaiting   *)
(* requests, the real client for 256: where that matters the script begins *)
(* with the difference.                                                    *)
(***************************************************************************)
EXTENDS Client, TLC, Json, IOUtils

CONSTANT Record   \* whether scripts are made

Deep == IOEnv.TIER = "thorough"
Prop == IOEnv.PROP

Depth == IF ~Record THEN (IF Deep THEN 4 ELSE 3) + (IF Prop = "C27" THEN 2 ELSE 0) ELSE
         CASE Prop = "C23" -> IF Deep THEN 8 ELSE 6
           [] Prop = "C24" -> IF Deep THEN 7 ELSE 5
           [] Prop = "C25" -> IF Deep THEN 5 ELSE 4
           [] OTHER -> IF Deep THEN 7 ELSE 5

Does == CASE Prop = "C23" -> {"connect", "disconnect", "pclose", "get"}
          [] Prop = "C24" -> {"connect", "disconnect", "get", "ka", "half", "rest", "msg"}
          [] Prop = "C25" -> {"timeout", "get", "msg", "wait"} \cup (IF Deep THEN {"connect", "disconnect"} ELSE {})
          [] OTHER -> {"connect", "nowhere", "disconnect", "pclose", "get", "half", "rest", "msg", "isconn"}
Flaws == {"none"} \cup
         CASE Prop = "C23" -> {"last first", "twice", "sent and kept", "cleared by connect", "cleared by disconnect", "small", "large", "drops"}
           [] Prop = "C24" -> {"silent while receiving", "silent while sending", "answers twice", "unasked"}
           [] Prop = "C25" -> {"not stopped", "early", "silent", "again", "one timer", "stopped by others"}
           [] OTHER -> {"message lost by reconnect"}

Elements == IF Prop = "C27" THEN {0} ELSE {0, 1}
Ears == IF Prop = "C25" /\ Deep THEN {1, 2} ELSE {1}
Timeout == 4  \* and Wait is longer

VARIABLES q,     \* requests that wait, as their numbers
          wire,  \* requests on their way to the provider
          conn,
          inq,   \* what the provider has sent: "ka", "half", or an element that is updated
          part,  \* the provider has sent half of a message
          open,  \* half of a message was received
          resps, \* keep-alive responses on their way
          T,
          timers,
          now,
          n,     \* how much was done
          told,  \* the next is a settling after a wait
          c,     \* the observer
          flaw, hist
vars == <<q, wire, conn, inq, part, open, resps, T, timers, now, n, told, c, flaw, hist>>

\* Timeouts are of interest with a connection.
Init == /\ q = <<>> /\ wire = <<>> /\ conn = (Prop = "C25") /\ inq = <<>> /\ part = FALSE /\ open = FALSE /\ resps = 0
        /\ T = (IF Prop = "C25" THEN Timeout ELSE 0) /\ timers = {}
        /\ now = 0 /\ n = 0 /\ told = TRUE /\ c = (IF conn THEN Connected(ClientInit) ELSE ClientInit)
        /\ hist = IF Prop = "C25" /\ Record THEN <<[do |-> "connect"], [do |-> "timeout", n |-> 40]>> ELSE <<>>
        /\ flaw \in Flaws

Pos(e) == IF e = 0 THEN <<>> ELSE <<e>>
Step(s) == /\ n < Depth /\ c.bad = "" /\ n' = n + 1
           /\ hist' = IF Record THEN Append(hist, s) ELSE hist
           /\ now' = now + 2
May(what) == what \in Does /\ told

Num == [r \in 1..Len(c.reqs) |-> c.reqs[r]]

(* ---- what the user does ---- *)
Connect ==
    /\ May("connect")
    /\ IF conn THEN Step([do |-> "connect"]) /\ UNCHANGED <<q, wire, conn, inq, part, open, resps, c>>
       ELSE /\ Step([do |-> "connect"])
            /\ conn' = TRUE /\ inq' = <<>> /\ wire' = <<>> /\ resps' = 0
            /\ part' = FALSE /\ open' = (flaw = "message lost by reconnect" /\ open)
            /\ q' = IF flaw = "cleared by connect" THEN <<>> ELSE q
            /\ c' = Connected(c)
    /\ UNCHANGED <<T, timers, told, flaw>>

Nowhere == May("nowhere") /\ Step([do |-> "connect", what |-> "nowhere"])
           /\ UNCHANGED <<q, wire, conn, inq, part, open, resps, T, timers, told, c, flaw>>
IsConn == May("isconn") /\ Step([do |-> "isconn"])
          /\ c' = (IF conn # c.con THEN Fail(c, "IsConnected is wrong") ELSE c)
          /\ UNCHANGED <<q, wire, conn, inq, part, open, resps, T, timers, told, flaw>>

(* What is on its way may arrive or not. *)
Away(how) ==
    /\ conn' = FALSE /\ wire' = <<>> /\ inq' = <<>> /\ resps' = 0
    /\ part' = FALSE /\ open' = (flaw = "message lost by reconnect" /\ open)
    /\ c' = Ended(c, how)
    /\ UNCHANGED <<T, timers, told, flaw>>

Disconnect ==
    /\ May("disconnect")
    /\ IF conn THEN /\ Len(wire) <= LostWithIt
                    /\ Step([do |-> "disconnect", n |-> 1]) /\ Away("end")
                    /\ q' = IF flaw = "cleared by disconnect" THEN <<>> ELSE q
       ELSE Step([do |-> "disconnect"]) /\ UNCHANGED <<q, wire, conn, inq, part, open, resps, T, timers, told, c, flaw>>
PClose == May("pclose") /\ conn /\ Step([do |-> "pclose", n |-> 1]) /\ Away("peer") /\ UNCHANGED q

Room == CASE flaw = "small" -> MaxWaiting - 1 [] flaw = "large" -> MaxWaiting + 1 [] OTHER -> MaxWaiting
Get ==
    \E l \in Ears, e \in Elements :
    /\ May("get")
    /\ Step([do |-> "get", l |-> l, pos |-> Pos(e), full |-> Len(q) >= Room])
    /\ IF Len(q) >= Room
       THEN IF flaw = "drops"
            THEN /\ q' = Append(Tail(q), Len(c.reqs) + 1)
                 /\ c' = Accept(c, Request(l, e, now, now, T)) /\ UNCHANGED timers
            ELSE c' = Refuse(c) /\ UNCHANGED <<q, timers>>
       ELSE /\ q' = Append(q, Len(c.reqs) + 1)
            /\ c' = Accept(c, Request(l, e, now, now, T))
            /\ timers' = (IF flaw = "one timer" THEN { t \in timers : t.e # e \/ t.l # l } ELSE timers)
                         \cup (IF T > 0 THEN { [r |-> Len(c.reqs) + 1, l |-> l, e |-> e, at |-> now + T] } ELSE {})
    /\ UNCHANGED <<wire, conn, inq, part, open, resps, T, told, flaw>>

SetTimeout == /\ May("timeout")
              /\ T' = Timeout - T
              /\ Step([do |-> "timeout", n |-> IF T = 0 THEN 40 ELSE 0])
              /\ UNCHANGED <<q, wire, conn, inq, part, open, resps, timers, told, c, flaw>>

(* ---- what the provider does ---- *)
Provide(what, s) == /\ conn /\ Len(inq) < (IF Prop = "C25" THEN 1 ELSE 3) /\ Step(s) /\ inq' = Append(inq, what)
                    /\ UNCHANGED <<q, wire, conn, open, resps, T, timers, told, flaw>>
KeepAlive == May("ka") /\ Provide([k |-> "ka"], [do |-> "ka", n |-> 1]) /\ c' = KeepAliveAsked(c, 1) /\ UNCHANGED part
\* a message is about the root, or 1
Answer == \E e \in Elements : May("msg") /\ ~part /\ Provide([k |-> "msg", e |-> e], [do |-> "msg", about |-> e]) /\ UNCHANGED <<c, part>>
Half == May("half") /\ ~part /\ part' = TRUE /\ Provide([k |-> "half"], [do |-> "half", about |-> 1]) /\ UNCHANGED c
Rest == May("rest") /\ part /\ part' = FALSE /\ Provide([k |-> "rest", e |-> 1], [do |-> "rest"]) /\ UNCHANGED c

(* ---- what the client does ---- *)
Inner == UNCHANGED <<n, hist, T, flaw, now, told, part>>

Send == /\ conn /\ q # <<>> /\ Len(wire) < 3 /\ c.bad = ""
        /\ LET i == IF flaw = "last first" THEN Len(q) ELSE 1 IN
           /\ wire' = wire \o (IF flaw = "twice" THEN <<q[i], q[i]>> ELSE <<q[i]>>)
           /\ q' = IF flaw = "sent and kept" /\ Len(q) = 2 THEN q ELSE RemoveAt(q, i)
        /\ UNCHANGED <<conn, inq, part, open, resps, timers, c>> /\ Inner
Arrives == /\ wire # <<>>
           /\ wire' = Tail(wire)
           /\ c' = Arrive(c, LAMBDA r : r.id = c.reqs[Head(wire)].id)
           /\ UNCHANGED <<q, conn, inq, part, open, resps, timers>> /\ Inner

Stopped(t, e) == t.e = e \/ flaw = "stopped by others"
(* A message about e was decoded: e is updated. *)
Hears(e) == /\ c' = Answered(c, {e}, now)
            /\ timers' = IF flaw = "not stopped" THEN timers ELSE { t \in timers : ~Stopped(t, e) }
Receive == /\ conn /\ inq # <<>> /\ c.bad = ""
           /\ inq' = Tail(inq)
           /\ LET m == Head(inq) IN
              CASE m.k = "ka" ->
                    /\ resps' = resps + (CASE flaw = "silent while receiving" /\ open -> 0
                                           [] flaw = "silent while sending" /\ q # <<>> -> 0
                                           [] flaw = "answers twice" -> 2
                                           [] OTHER -> 1)
                    /\ UNCHANGED <<part, open, timers, c>>
                [] m.k = "half" -> open' = TRUE /\ UNCHANGED <<resps, timers, c>>
                [] m.k = "rest" -> open' = FALSE /\ Hears(m.e) /\ UNCHANGED resps
                [] OTHER -> /\ IF flaw = "message lost by reconnect" /\ open
                               THEN c' = Fail(c, "what was received is lost") /\ UNCHANGED timers
                               ELSE Hears(m.e)
                            /\ resps' = resps + (IF flaw = "unasked" THEN 1 ELSE 0)
                            /\ UNCHANGED open
           /\ UNCHANGED <<q, wire, conn>> /\ Inner
Responds == /\ resps > 0 /\ resps' = resps - 1 /\ c' = KeepAliveAnswered(c)
            /\ UNCHANGED <<q, wire, conn, inq, part, open, timers>> /\ Inner

(* ---- time ---- *)
Due == { t \in timers : t.at <= now }
Fire == \E t \in (IF flaw = "early" THEN timers ELSE Due) :
        /\ flaw # "silent" /\ c.bad = ""
        /\ timers' = IF flaw = "again" THEN timers ELSE timers \ {t}
        /\ c' = Late(c, t.l, t.e, now)
        /\ UNCHANGED <<q, wire, conn, inq, part, open, resps>> /\ Inner
Wait == /\ May("wait") /\ inq = <<>>
        /\ n < Depth /\ c.bad = "" /\ n' = n + 1 /\ hist' = IF Record THEN Append(hist, [do |-> "wait"]) ELSE hist
        /\ now' = now + 2 + Timeout /\ told' = FALSE
        /\ UNCHANGED <<q, wire, conn, inq, part, open, resps, T, timers, c, flaw>>

Idle == (conn => q = <<>> /\ inq = <<>>) /\ wire = <<>> /\ resps = 0
(* What must have happened once everything has come to rest *)
Settle == /\ ~told /\ told' = TRUE
          /\ (Due = {} \/ flaw = "silent")
          /\ c' = Overdue(c, now)
          /\ UNCHANGED <<q, wire, conn, inq, part, open, resps, T, timers, now, n, flaw, hist>>
Rested == IF Idle THEN AllAnswered(Drained(c)) ELSE c

User == Connect \/ Nowhere \/ IsConn \/ Disconnect \/ PClose \/ Get \/ SetTimeout \/ KeepAlive \/ Answer \/ Half \/ Rest \/ Wait
Client == Send \/ Arrives \/ Receive \/ Responds \/ Fire \/ Settle
Next == User \/ Client
\* timers are not late in the model: nothing is done while one is due
Prompt == Due = {} \/ flaw \in {"silent", "again"}
Spec == Init /\ [][(User /\ Prompt) \/ Client]_vars

Fair == Spec /\ WF_vars(Send) /\ WF_vars(Arrives) /\ WF_vars(Receive) /\ WF_vars(Responds) /\ WF_vars(Fire) /\ WF_vars(Settle)

View == <<q, wire, conn, inq, part, open, resps, T, timers, now, n, told, c, flaw>>

-----------------------------------------------------------------------------
Judged == Rested.bad

(* The design is what the observer allows. *)
Sound == flaw = "none" => Judged = ""

(* The queue is in the order of the requests, and no longer than it may be. *)
Queue == flaw = "none" => /\ Len(q) <= MaxWaiting
                          /\ \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]
                          /\ \A i \in 1..Len(q), j \in 1..Len(wire) : wire[j] < q[i]

(* Only what waits or was lost has not arrived. *)
Nothing == flaw = "none" => \E s \in c.at : s.n <= Len(c.reqs) /\ { q[i] : i \in 1..Len(q) } \cap 1..s.n = {}

(* An answered request has no timer. *)
Timers == flaw = "none" => \A t \in timers : c.reqs[t.r].ans = 0 /\ ~c.reqs[t.r].fired

(* While there is a connection everything is sent and every keep-alive answered; a timer *)
(* goes off or is stopped.                                                             *)
Sends == (flaw = "none" /\ conn /\ q # <<>>) ~> (~conn \/ q = <<>> \/ n >= Depth)
Empties == (flaw = "none" /\ n = Depth /\ conn) ~> (q = <<>>)
Answers == (flaw = "none" /\ c.owed > 0) ~> (c.owed = 0 \/ ~c.con)
Reports == (flaw = "none" /\ ~told) ~> (told /\ Due = {})

(* Which flaws were found *)
Seen == /\ IF Judged # "" /\ flaw \notin TLCGet(7) THEN TLCSet(7, TLCGet(7) \cup {flaw}) ELSE TRUE
ASSUME TLCSet(7, {})
Found == IF Flaws \ {"none"} \subseteq TLCGet(7) THEN TRUE
         ELSE PrintT(<<"flaws that are not found", Flaws \ ({"none"} \cup TLCGet(7))>>) /\ FALSE

-----------------------------------------------------------------------------
(* Scripts *)
Emit == (Record /\ flaw = "none" /\ n' # n /\ n' = Depth) => PrintT("CASE " \o ToJson(hist'))
=============================================================================
