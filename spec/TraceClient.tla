---------------------------- MODULE TraceClient ----------------------------
(***************************************************************************)
(* C23 - C27: what the real client did with a provider on a loopback       *)
(* socket.  Every event says what happened since the one before:           *)
(*   calls   of callbacks, and what these did: call, late (a timeout), add,*)
(*           remove, get, disconnect, isconn                               *)
(*   frames  that arrived at the provider; tail: whether part of another   *)
(*   ka      keep-alive requests the provider sent                         *)
(*   now     the time                                                      *)
(* and what was done:                                                      *)
(*   get      l, id, T, at, end, ok: GetDirectory                          *)
(*   msg      in: a message that the provider sent, and the client decoded *)
(*   sync     all that the provider sent has been decoded                  *)
(*   settled  and all that was to happen has                               *)
(*   connect, disconnect, pclose, isconn                                   *)
(*   walk     a whole GetTree                                              *)
(*   together requests of several goroutines                               *)
(*   stream   in: bytes that the provider sent, and the client received    *)
(***************************************************************************)
EXTENDS TraceTree, S101, Client, Walk

CFresh(e) == [lost |-> FALSE, t |-> NoTree, id |-> NoTree, ls |-> {}, c |-> ClientInit, open |-> FALSE, asm |-> <<>>, conns |-> 0,
              rx |-> { DecInit }]

KaResponse == <<0, 14, KeepAliveResponse, 1>>
KaRequest == <<0, 14, KeepAliveRequest, 1>>

RequestFor(st, m, r) == m.st = "ok" /\ (r.id = 0 \/ r.id \in { st.id[p] : p \in DOMAIN st.id })
                        /\ m.v \in DirectoryRequests(st.t, PosOf(st, r.id))

FlagsOk(st, flags) == flags = (IF st.open THEN 0 ELSE FirstFlag) \/ flags = (IF st.open THEN 0 ELSE FirstFlag) + LastFlag

Frame1(st, f) ==
    LET Failed(why) == [st EXCEPT !.c = Fail(@, why)] IN
    IF st.c.bad # "" THEN st
    ELSE IF ~Proper(f) \/ ~Verifies(Unescaped(f)) THEN Failed("what arrives is not a frame")
    ELSE LET b == Body(f) IN
         IF b = KaResponse THEN [st EXCEPT !.c = KeepAliveAnswered(@)]
         ELSE IF b = KaRequest THEN st
         ELSE IF Len(b) < 9 \/ ~FlagsOk(st, b[5]) \/ SubSeq(b, 1, 9) # Header(b[5])
              THEN Failed("what arrives is neither a packet of a message nor a keep-alive")
         ELSE LET data == st.asm \o SubSeq(b, 10, Len(b)) IN
              IF ~Has(b[5], LastFlag) THEN [st EXCEPT !.open = TRUE, !.asm = data]
              ELSE LET m == Msg(data) IN
                   [st EXCEPT !.open = FALSE, !.asm = <<>>, !.c = Arrive(@, LAMBDA r : RequestFor(st, m, r))]

Frames(st, e) ==
    LET s == FoldLeft(Frame1, st, e.frames) IN
    IF s.c.bad = "" /\ e.tail /\ s.c.con /\ e.op \notin {"disconnect", "pclose"} THEN [s EXCEPT !.c = Fail(@, "a frame is left unfinished")] ELSE s

(* Requests made in callbacks, and timeouts *)
Called(st, e) ==
    FoldLeft(LAMBDA s, x :
        CASE x.do = "late" -> [s EXCEPT !.c = Late(@, x.l, x.id, x.ms)]
          [] x.do = "get" -> [s EXCEPT !.c = IF x.ok THEN Accept(@, Request(x.l, x.id, x.at, x.end, x.T)) ELSE Refuse(@)]
          [] x.do = "isconn" -> IF x.ok # s.c.con THEN [s EXCEPT !.c = Fail(@, "IsConnected is wrong")] ELSE s
          [] x.do = "disconnect" -> IF x.ok # s.c.con THEN [s EXCEPT !.c = Fail(@, "Disconnect is refused, or there was no connection")]
                                    ELSE [s EXCEPT !.c = Ended(@, "end")]
          [] OTHER -> s,
        st, e.calls)

(* Calls as the listeners of the tree see them *)
TreeCalls(e) ==
    LET own == SelectSeq(e.calls, LAMBDA x : x.do \in {"call", "add", "remove", "get"} /\ (x.do = "get" => x.ok)) IN
    [j \in 1..Len(own) |-> IF own[j].do = "get" THEN [own[j] EXCEPT !.do = "add"] ELSE own[j]]
\* Who has been called with the answer before the event was over: no timeout may follow.
HeardOf(c, e) == FoldLeft(LAMBDA d, x : IF x.do = "call" THEN HeardAt(d, x.l, x.id, x.ms) ELSE d, c, e.calls)
Silence(e) == \A j \in 1..Len(e.calls) : e.calls[j].do = "late"

(* Judgement of a state with a client *)
Verdict(st, cls) == IF st.c.bad # "" THEN Bad(Lost, st.c.bad) ELSE Good(st, cls)

(* What every event brings, for those where no message was decoded *)
\* With(c) is the client after what the event itself did.
SinceWith(st, e, With(_)) ==
    IF ~Silence(e) THEN [st EXCEPT !.c = Fail(@, "a callback is called though nothing was received")]
    ELSE LET s == Called([st EXCEPT !.c = KeepAliveAsked(@, e.ka)], e) IN
         Frames([s EXCEPT !.c = With(@)], e)
Since(st, e) == SinceWith(st, e, LAMBDA c : c)

AllBack(st, e) == IF e.stuck THEN [st EXCEPT !.c = Fail(@, "the client does not answer any more")]
                  ELSE [st EXCEPT !.c = Overdue(AllAnswered(Drained(@)), e.now)]

JudgeClientMsg(st, e) ==
    LET m == Msg(e.in) IN
    IF m.st # "ok" \/ ~Plain(m.v) THEN Bad(Lost, "the driver sent no plain message")
    ELSE IF e.stuck THEN Bad(Lost, "the client does not answer any more")
    ELSE LET a == Apply(st.t, m.v)
             why == IF e.dumped THEN DumpOk(st, a.t, e.dump) ELSE ""
             ids == IF e.dumped THEN Ids(e.dump) ELSE NoTree
             \* before anybody has seen an element of the tree there is nobody to tell
             ns == IF ~e.dumped THEN <<>> ELSE
                   [j \in 1..Len(a.notices) |->
                      LET n == a.notices[j] IN [id |-> IF n.pos = <<>> THEN 0 ELSE ids[n.pos], g |-> n.g, kids |-> n.kids]] IN
         IF why # "" THEN Bad(Lost, why)
         ELSE LET w == Hear(st.ls, ns, TreeCalls(e), a.refused)
                  s1 == [st EXCEPT !.t = a.t, !.id = ids, !.ls = w.ls,
                                   !.c = Answered(HeardOf(KeepAliveAsked(@, e.ka), e), { ns[j].id : j \in 1..Len(ns) }, e.now)]
                  s2 == Frames(Called(s1, e), e) IN
              IF w.bad # "" THEN Bad(Lost, w.bad)
              ELSE Verdict(AllBack(s2, e), IF Len(TreeCalls(e)) > 0 THEN "answer" ELSE "msg")

(* C31: in, any bytes.  What a receiver may make of them: messages, and keep-alive requests. *)
Reception(S, in) ==
    FoldLeft(LAMBDA X, b : UNION { { [s |-> y[1],
                                      ms |-> x.ms \o SelectSeq(y[2], LAMBDA o : o.k = "msg"),
                                      ka |-> x.ka + Len(SelectSeq(y[2], LAMBDA o : o.k = "kreq"))] : y \in Eat(x.s, b) } : x \in X },
             { [s |-> s, ms |-> <<>>, ka |-> 0] : s \in S }, in)

(* Message d is taken by a client with the tree a.t: a [t, ns, free], where ns are *)
(* the notices of each message                                                      *)
Taken(a, d) ==
    LET m == Msg(d) IN
    IF m.st = "ok" /\ Plain(m.v)
    THEN LET x == Apply(a.t, m.v) IN [a EXCEPT !.t = x.t, !.ns = Append(@, [notices |-> x.notices, refused |-> x.refused])]
    ELSE IF EndsEarly(m, d) THEN a   \* ends early: refused as a whole
    ELSE [a EXCEPT !.free = TRUE]                            \* whether it can be decoded is the subject of C06 - C08

(* What the listeners heard of several messages: each is heard of before the next. *)
HearAll(ls, ns, ids, calls) ==
    LET step(a, n) ==
            LET own == [j \in 1..Len(n.notices) |->
                          LET x == n.notices[j] IN [id |-> IF x.pos = <<>> THEN 0 ELSE ids[x.pos], g |-> x.g, kids |-> x.kids]]
                due == Len(Awaited(ls, own, n.refused).due)
                upto == IF Len(a.rest) < due THEN Len(a.rest) ELSE due IN
            IF a.bad # "" THEN a
            ELSE [bad |-> Hear(ls, own, SubSeq(a.rest, 1, upto), n.refused).bad, rest |-> SubSeq(a.rest, upto + 1, Len(a.rest))]
        end == FoldLeft(step, [bad |-> "", rest |-> calls], ns) IN
    IF end.bad # "" THEN end.bad ELSE IF end.rest # <<>> THEN "a listener is called though nothing was received" ELSE ""

StreamWrong(st, e, r) ==
    LET a == FoldLeft(LAMBDA x, o : Taken(x, o.d), [t |-> st.t, ns |-> <<>>, free |-> FALSE], r.ms) IN
    IF a.free THEN [why |-> "", a |-> a]
    ELSE LET why == DumpOk(st, a.t, e.dump) IN
         [why |-> IF why # "" THEN why ELSE HearAll(st.ls, a.ns, Ids(e.dump), TreeCalls(e)), a |-> a]

JudgeStream(st, e) ==
    LET rs == Reception(st.rx, e.in)
        all == [r \in rs |-> StreamWrong(st, e, r)]
        ok == { r \in rs : all[r].why = "" } IN
    IF e.panic # "" THEN Bad(Lost, "panics: " \o e.panic)
    ELSE IF e.stuck THEN Bad(Lost, "the client does not answer any more")
    ELSE IF ok = {} THEN Bad(Lost, all[CHOOSE r \in rs : TRUE].why)
    ELSE IF \E r \in ok : all[r].a.free THEN Good(Lost, "stream free")
    ELSE LET r0 == CHOOSE r \in ok : TRUE
             a == all[r0].a
             s1 == [st EXCEPT !.t = a.t, !.id = Ids(e.dump), !.rx = { r.s : r \in ok },
                              !.c = KeepAliveAsked(@, r0.ka)] IN
         Verdict(AllBack(Frames(s1, e), e),
                 IF a.ns = <<>> THEN "stream without message"
                 ELSE IF Cardinality(rs) > 1 THEN "stream with noise"
                 ELSE IF Len(a.ns) > 1 THEN "stream of messages" ELSE "stream")

JudgeGet(st, e) ==
    LET s == SinceWith(st, e, LAMBDA c : IF e.ok THEN Accept(c, Request(e.l, e.id, e.at, e.end, e.T)) ELSE Refuse(c)) IN
    IF e.panic # "" THEN Bad(Lost, "panics: " \o e.panic)
    ELSE Verdict([s EXCEPT !.ls = IF e.ok /\ e.l # 0 THEN @ \cup { <<e.l, e.id>> } ELSE @],
                 IF ~e.ok THEN "refused" ELSE IF st.c.con THEN "get" ELSE "get before")

(* Many requests for the directory of the root, of which as many as there is room for are accepted *)
Filled(c, e) ==
    LET d == FoldLeft(LAMBDA x, j : Accept(x, Request(0, 0, e.at, e.end, 0)), c, [j \in 1..e.ok |-> j]) IN
    IF e.ok < e.of THEN Refuse(d) ELSE d

JudgeConnect(st, e) ==
    LET s == Since(st, e)
        good == ~s.c.con /\ ~e.nowhere IN
    IF e.panic # "" THEN Bad(Lost, "panics: " \o e.panic)
    ELSE IF e.ok /\ ~good THEN Bad(Lost, "Connect succeeds though it cannot")
    ELSE IF ~e.ok /\ good THEN Bad(Lost, "Connect fails")
    ELSE IF e.is # (s.c.con \/ good) THEN Bad(Lost, "IsConnected is wrong after Connect")
    ELSE IF e.conns # st.conns + (IF good THEN 1 ELSE 0) THEN Bad(Lost, "another number of connections reached the provider")
    ELSE Verdict([s EXCEPT !.c = IF good THEN Connected(@) ELSE @, !.open = IF good THEN FALSE ELSE @,
                           !.asm = IF good THEN <<>> ELSE @, !.conns = e.conns, !.rx = IF good THEN { DecInit } ELSE @],
                 IF good THEN (IF st.conns = 0 THEN "connect" ELSE "reconnect") ELSE "connect refused")

JudgeDisconnect(st, e) ==
    LET s == Since(st, e) IN
    IF e.panic # "" THEN Bad(Lost, "panics: " \o e.panic)
    ELSE IF e.ok # s.c.con THEN Bad(Lost, IF e.ok THEN "Disconnect succeeds without a connection" ELSE "Disconnect fails")
    ELSE IF e.is THEN Bad(Lost, "still connected after Disconnect")
    ELSE IF ~e.closed THEN Bad(Lost, "Disconnect does not end the connection")
    ELSE IF ~e.gone THEN Bad(Lost, "something of the connection runs on after it has ended")
    ELSE Verdict([s EXCEPT !.c = Ended(@, "end")], IF s.c.con THEN "disconnect" ELSE "disconnect refused")

JudgePClose(st, e) ==
    LET s == Since(st, e) IN
    IF e.is THEN Bad(Lost, "the end of the connection is not noticed")
    ELSE IF ~e.closed THEN Bad(Lost, "the client does not close a connection that the provider has ended")
    ELSE IF ~e.gone THEN Bad(Lost, "something of the connection runs on after it has ended")
    ELSE Verdict([s EXCEPT !.c = Ended(@, "peer")], "provider closes")

-----------------------------------------------------------------------------
(* The messages in some frames *)
Payload1(a, f) ==
    IF a.bad # "" THEN a
    ELSE IF ~Proper(f) \/ ~Verifies(Unescaped(f)) THEN [a EXCEPT !.bad = "what arrives is not a frame"]
    ELSE LET b == Body(f) IN
         IF b \in {KaResponse, KaRequest} THEN a
         ELSE IF Len(b) < 9 \/ ~FlagsOk(a, b[5]) \/ SubSeq(b, 1, 9) # Header(b[5])
              THEN [a EXCEPT !.bad = "what arrives is neither a packet of a message nor a keep-alive"]
         ELSE LET data == a.asm \o SubSeq(b, 10, Len(b)) IN
              IF Has(b[5], LastFlag) THEN [a EXCEPT !.open = FALSE, !.asm = <<>>, !.out = Append(@, data)]
              ELSE [a EXCEPT !.open = TRUE, !.asm = data]
PayloadsOf(frames) == FoldLeft(Payload1, [bad |-> "", open |-> FALSE, asm |-> <<>>, out |-> <<>>], frames)

(* A whole GetTree: in the order in which they were sent, sent are the messages of *)
(* the provider, asked the requests that it received; skip the positions that it    *)
(* did not answer; tree what it has.                                                *)

Formless(tree) == [p \in DOMAIN tree |-> [tree[p] EXCEPT !.q = FALSE]]
WalkApply(t, ins) == FoldLeft(LAMBDA acc, in : Apply(acc, Msg(in).v).t, t, ins)

(* The position whose directory is asked for *)
PosAsked(t, m) ==
    IF m.st # "ok" THEN <<-1>>
    ELSE IF m.v = <<GetDir>> THEN <<>>
    ELSE LET ps == { p \in Mentioned(m.v) \cap DOMAIN t : m.v \in DirectoryRequests(t, p) } IN
         IF ps = {} THEN <<-1>> ELSE CHOOSE p \in ps : TRUE

JudgeWalk(st, e) ==
    LET whole == FoldLeft(LAMBDA acc, d : acc @@ Below(<<NumOf(d)>>, d), NoTree, e.tree)
        msgs == PayloadsOf(e.frames)
        asked == [j \in 1..Len(msgs.out) |-> PosAsked(whole, Msg(msgs.out[j]))]
        askedSet == { asked[j] : j \in 1..Len(asked) }
        all == DOMAIN whole \cup {<<>>}
        skip == { e.skip[j] : j \in 1..Len(e.skip) }
        t == WalkApply(NoTree, e.sent)
        errs == { j \in 1..Len(e.calls) : e.calls[j].err }
        endsOf(k) == Cardinality({ j \in 1..Len(e.calls) : e.calls[j].w = k })
        wrong == IF e.crowd THEN CrowdWrong(all, asked, Len(e.calls), errs # {})
                 ELSE IF e.walks > 1 /\ ~e.cut THEN ManyWrong(all, asked, [k \in 1..e.walks |-> endsOf(k)], errs # {})
                 ELSE WalkWrong(all, skip, asked, Len(e.calls), errs # {}, e.T > 0) IN
    IF e.panic # "" THEN Bad(Lost, "panics: " \o e.panic)
    ELSE IF ~e.ok THEN Bad(Lost, "GetTree is refused")
    ELSE IF e.stuck THEN Bad(Lost, "the client does not answer any more")
    ELSE IF msgs.bad # "" THEN Bad(Lost, msgs.bad)
    ELSE IF <<-1>> \in askedSet THEN Bad(Lost, "a request of GetTree is not for the directory of an element")
    ELSE IF skip # {} /\ ~e.cut /\ errs # {} /\ e.calls[1].ms < e.at + e.T - 1 THEN Bad(Lost, "GetTree times out too early")
    ELSE IF e.cut /\ (Len(e.calls) # 1 \/ errs = {}) THEN Bad(Lost, "GetTree does not end, once and with an error, after the connection has")
    ELSE IF e.cut /\ ~(askedSet \subseteq all) THEN Bad(Lost, "GetTree asks for something that is not there")
    ELSE IF ~e.cut /\ wrong # "" THEN Bad(Lost, wrong)
    ELSE IF e.cut THEN Good(Lost, "walk cut")
    ELSE LET why == DumpOk([st EXCEPT !.id = NoTree], t, e.dump) IN
         IF why # "" THEN Bad(Lost, "after GetTree: " \o why)
         ELSE IF e.skip = <<>> /\ errs = {} /\ e.walks = 1 /\ Formless(t) # Formless(whole) THEN Bad(Lost, "GetTree ends without the whole tree")
         ELSE Good(st, IF e.skip # <<>> THEN "walk unanswered"
                         ELSE IF e.crowd THEN (IF errs = {} THEN "walk in a crowd" ELSE "walk refused")
                         ELSE IF e.walks > 1 THEN "walks together"
                         ELSE IF Cardinality(all) > 256 THEN "walk large" ELSE "walk")

-----------------------------------------------------------------------------
RECURSIVE NestedNodes(_, _)
NestedNodes(p, n) == [El0 EXCEPT !.k = "node", !.p = <<p[n]>>, !.ch = <<IF n = Len(p) THEN GetDir ELSE NestedNodes(p, n + 1)>>]
NodeRequests(p) == { <<[El0 EXCEPT !.k = "node", !.q = TRUE, !.p = p, !.ch = <<GetDir>>]>>, <<NestedNodes(p, 1)>> }

(* Requests of several goroutines, each with its number of when it was begun and ended *)
JudgeTogether(st, e) ==
    LET msgs == PayloadsOf(e.frames)
        got == [j \in 1..Len(msgs.out) |-> Msg(msgs.out[j])]
        \* which request each is: the first of that position which has not come
        step(a, m) ==
            LET ps == { j \in 1..Len(e.reqs) : j \notin a.seen /\ e.reqs[j].ok /\ m.st = "ok"
                           /\ m.v \in NodeRequests(e.reqs[j].pos) } IN
            IF a.bad # "" THEN a
            ELSE IF ps = {} THEN [a EXCEPT !.bad = "a request that nobody made, or a second time"]
            ELSE LET i == CHOOSE x \in ps : \A y \in ps : e.reqs[x].begin <= e.reqs[y].begin IN
                 IF \E j \in 1..Len(e.reqs) : j \notin a.seen /\ j # i /\ e.reqs[j].ok /\ e.reqs[j].end < e.reqs[i].begin
                 THEN [a EXCEPT !.bad = "a request overtakes another"]
                 ELSE [a EXCEPT !.seen = @ \cup {i}]
        end == FoldLeft(step, [seen |-> {}, bad |-> ""], got)
        ok == { j \in 1..Len(e.reqs) : e.reqs[j].ok } IN
    IF e.stuck THEN Bad(Lost, "the client does not answer any more")
    ELSE IF msgs.bad # "" THEN Bad(Lost, msgs.bad)
    ELSE IF end.bad # "" THEN Bad(Lost, end.bad)
    ELSE IF end.seen # ok THEN Bad(Lost, "a request was not sent")
    ELSE IF e.before /\ Cardinality(ok) # (IF Len(e.reqs) < MaxWaiting THEN Len(e.reqs) ELSE MaxWaiting)
    THEN Bad(Lost, "another number of requests is accepted than there is room for")
    ELSE IF ~e.before /\ Len(e.reqs) <= MaxWaiting /\ Cardinality(ok) # Len(e.reqs) THEN Bad(Lost, "a request is refused though there is room")
    ELSE Good(Lost, IF e.before THEN "together before" ELSE "together")

-----------------------------------------------------------------------------
(* Connect, Disconnect and IsConnected of several goroutines, each with its number *)
(* of when it was begun and ended: they happen as if one after the other.          *)
RivalMay(ops, x) ==
    { i \in (1..Len(ops)) \ x.done :
        /\ \A j \in (1..Len(ops)) \ x.done : ops[j].end > ops[i].begin
        /\ CASE ops[i].do = "connect" -> ops[i].ok = ~x.con
             [] ops[i].do = "disconnect" -> ops[i].ok = x.con
             [] OTHER -> ops[i].ok = x.con }
RivalStep(ops, X) ==
    UNION { { [done |-> x.done \cup {i},
               con |-> CASE ops[i].do = "connect" -> TRUE [] ops[i].do = "disconnect" -> FALSE [] OTHER -> x.con] :
              i \in RivalMay(ops, x) } : x \in X }
JudgeRivals(e) ==
    LET X == FoldLeft(LAMBDA acc, i : RivalStep(e.ops, acc), { [done |-> {}, con |-> FALSE] }, e.ops) IN
    IF X = {} THEN Bad(Lost, "Connect, Disconnect and IsConnected contradict each other")
    ELSE IF e.is \notin { x.con : x \in X } THEN Bad(Lost, "IsConnected is wrong at last")
    ELSE IF e.open # (IF e.is THEN 1 ELSE 0) THEN Bad(Lost, "another number of connections is open")
    ELSE IF e.stuck THEN Bad(Lost, "the client does not answer on its connection")
    ELSE IF ~e.gone THEN Bad(Lost, "something of a connection runs on after it has ended")
    ELSE Good(Lost, IF \E i, j \in 1..Len(e.ops) : i # j /\ e.ops[i].do = "connect" /\ e.ops[j].do = "connect"
                          /\ e.ops[i].begin < e.ops[j].end /\ e.ops[j].begin < e.ops[i].end /\ e.ops[i].ok # e.ops[j].ok
                       THEN "rivals to connect" ELSE "rivals")

-----------------------------------------------------------------------------
ClientJudgement(st, e) ==
    CASE e.op = "msg" -> JudgeClientMsg(st, e)
      [] e.op = "stream" -> JudgeStream(st, e)
      [] e.op = "get" -> JudgeGet(st, e)
      [] e.op = "fill" -> LET s == SinceWith(st, e, LAMBDA c : Filled(c, e)) IN Verdict(s, "fill")
      [] e.op = "connect" -> JudgeConnect(st, e)
      [] e.op = "disconnect" -> JudgeDisconnect(st, e)
      [] e.op = "pclose" -> JudgePClose(st, e)
      [] e.op = "isconn" -> LET s == Since(st, e) IN
            IF e.is # s.c.con THEN Bad(Lost, "IsConnected is wrong") ELSE Verdict(s, "isconn")
      [] e.op = "sync" -> Verdict(AllBack(Since(st, e), e), IF e.ka > 1 THEN "keep-alives" ELSE "sync")
      [] e.op = "settled" ->
            LET s0 == Since(st, e)
                s == IF e.synced \/ e.stuck THEN AllBack(s0, e) ELSE [s0 EXCEPT !.c = Overdue(@, e.now)]
                why == DumpOk(st, st.t, e.dump) IN
            IF e.dumped /\ why # "" THEN Bad(Lost, "the tree changes by itself: " \o why)
            ELSE Verdict(s, "settled" \o (IF \E j \in 1..Len(s.c.reqs) : s.c.reqs[j].fired THEN " timeout" ELSE ""))
      [] e.op = "listen" -> LET s == Since(st, e) IN Verdict([s EXCEPT !.ls = @ \cup { <<e.l, e.id>> }], "listen")
      [] e.op = "unlisten" -> LET s == Since(st, e) IN Verdict([s EXCEPT !.ls = @ \ { <<e.l, e.id>> }], "unlisten")
      [] e.op = "walk" -> JudgeWalk(st, e)
      [] e.op = "together" -> JudgeTogether(st, e)
      [] e.op = "rivals" -> JudgeRivals(e)
      [] e.op = "again" -> IF e.stuck THEN Bad(Lost, "the client does not answer after it connected again")
                           ELSE IF e.resps > e.reqs THEN Bad(Lost, "a keep-alive response that nobody asked for")
                           ELSE IF e.missing # 0 THEN Bad(Lost, "what is received on the new connection is lost")
                           ELSE Good(Lost, "again")
      [] OTHER -> Assert(FALSE, <<"unknown event", e>>)
=============================================================================
