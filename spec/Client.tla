------------------------------- MODULE Client -------------------------------
(***************************************************************************)
(* What a consumer may rely on when it talks to a provider: requests are   *)
(* sent once and in order or refused, they are answered or time out, and   *)
(* keep-alives are answered.                                               *)
(*                                                                         *)
(* c is a record                                                           *)
(*    con     whether there is a connection                                *)
(*    owed    keep-alive requests of the provider without a response       *)
(*    reqs    the requests made so far, in their order, each               *)
(*              l, id     whom the answer goes to, and of which element    *)
(*              at, end   when it was made                                 *)
(*              T         its timeout, 0 for none                          *)
(*              risk      "none"; "end" or "peer" if its connection was    *)
(*                        ended, by the client or by the provider, before  *)
(*                        it was seen there: it may have been lost         *)
(*              ans       when it was answered, 0 if it was not            *)
(*              fired     the timeout has been reported                    *)
(*    at      the possibilities of how much has reached the provider: the  *)
(*            first n requests have, or are lost, and lost more may still  *)
(*            be lost to the client's own Disconnect                       *)
(*    bad     what went wrong, "" if nothing did                           *)
(* Times are in milliseconds; a clock that is read twice within one may    *)
(* show the same.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

CONSTANTS MaxWaiting,  \* requests that wait to be sent; one more is refused
          LostWithIt,  \* requests being sent that Disconnect may lose
          Grace        \* how late a timeout may be

ClientInit == [con |-> FALSE, owed |-> 0, reqs |-> <<>>, at |-> { [n |-> 0, lost |-> 0] }, bad |-> ""]

Fail(c, why) == IF c.bad = "" THEN [c EXCEPT !.bad = why] ELSE c

Unsent(c, s) == (s.n + 1)..Len(c.reqs)
Certain(c, s) == { i \in Unsent(c, s) : c.reqs[i].risk = "none" }

(* Those of the possibilities where P holds; at least one is left. *)
Where(c, P(_), why) ==
    LET left == { s \in c.at : P(s) } IN
    IF left = {} THEN Fail(c, why) ELSE [c EXCEPT !.at = left]

Request(l, id, at, end, T) ==
    [l |-> l, id |-> id, at |-> at, end |-> end, T |-> T, risk |-> "none", ans |-> 0, fired |-> FALSE]

(* A request is accepted or refused *)
Accept(c, r) ==
    LET d == IF c.con THEN c
             ELSE Where(c, LAMBDA s : Cardinality(Certain(c, s)) < MaxWaiting, "more requests wait than there is room for") IN
    [d EXCEPT !.reqs = Append(@, r)]
Refuse(c) ==
    Where(c, LAMBDA s : Cardinality(Unsent(c, s)) >= MaxWaiting, "a request is refused though there is room")

(* The provider receives a request of the kind that Is recognises: from the      *)
(* possibility s, the next one that is not lost.                                  *)
After(c, s, Is(_)) ==
    LET sure == Certain(c, s)
        last == IF sure = {} THEN Len(c.reqs) ELSE Min(sure)
        to(i) == [n |-> i, lost |-> s.lost - Cardinality({ j \in (s.n + 1)..(i - 1) : c.reqs[j].risk = "end" })] IN
    { x \in { to(i) : i \in { j \in (s.n + 1)..last : Is(c.reqs[j]) } } : x.lost >= 0 }
(* Of those that have come equally far the one which has lost the least *)
Best(at) == { s \in at : \A x \in at : x.n = s.n => x.lost <= s.lost }
Arrive(c, Is(_)) ==
    LET to == Best(UNION { After(c, s, Is) : s \in c.at }) IN
    IF to # {} THEN [c EXCEPT !.at = to]
    ELSE IF \A s \in c.at : \A i \in Unsent(c, s) : ~Is(c.reqs[i]) THEN Fail(c, "a request that nobody made, or a second time")
    ELSE Fail(c, "a request overtakes another, or others were lost")

(* All that was accepted on this connection must be there by now. *)
Drained(c) == IF c.con /\ \A s \in c.at : Certain(c, s) # {} THEN Fail(c, "a request was not sent") ELSE c

KeepAliveAsked(c, n) == [c EXCEPT !.owed = @ + n]
KeepAliveAnswered(c) == IF c.owed = 0 THEN Fail(c, "a keep-alive response that nobody asked for") ELSE [c EXCEPT !.owed = @ - 1]
AllAnswered(c) == IF c.con /\ c.owed # 0 THEN Fail(c, "a keep-alive request was not answered") ELSE c

(* The elements ids were updated, not later than now. *)
Answered(c, ids, now) ==
    [c EXCEPT !.reqs = [j \in 1..Len(@) |->
        IF @[j].id \in ids /\ @[j].ans = 0 /\ ~@[j].fired THEN [@[j] EXCEPT !.ans = now] ELSE @[j]]]

(* l was called with id at ms: its requests for id have been answered by then. *)
HeardAt(c, l, id, ms) ==
    [c EXCEPT !.reqs = [j \in 1..Len(@) |->
        IF @[j].l = l /\ @[j].id = id /\ @[j].ans = 0 /\ ~@[j].fired THEN [@[j] EXCEPT !.ans = ms] ELSE @[j]]]

(* l hears at ms that its request for id has timed out. *)
MayFire(r, ms) == /\ r.T > 0 /\ ~r.fired
                  /\ ms >= r.at + r.T - 1
                  /\ (r.ans = 0 \/ r.ans + 1 >= r.at + r.T)
Late(c, l, id, ms) ==
    LET own == { i \in 1..Len(c.reqs) : c.reqs[i].l = l /\ c.reqs[i].id = id }
        may == { i \in own : MayFire(c.reqs[i], ms) }
        \* one that was answered in the last moment may have timed out, the others must
        must == { i \in may : c.reqs[i].ans = 0 } IN
    IF own = {} THEN Fail(c, "a timeout of a request that was not made")
    ELSE IF may = {} THEN Fail(c, "a timeout is reported too early, twice or after the answer")
    ELSE [c EXCEPT !.reqs[Min(IF must # {} THEN must ELSE may)].fired = TRUE]

(* What must have been reported by now *)
Overdue(c, now) ==
    IF \E i \in 1..Len(c.reqs) : LET r == c.reqs[i] IN
          r.T > 0 /\ r.ans = 0 /\ ~r.fired /\ r.l # 0 /\ now > r.end + r.T + Grace
    THEN Fail(c, "a timeout is not reported") ELSE c

Connected(c) == [c EXCEPT !.con = TRUE, !.owed = 0]
Ended(c, how) ==
    LET from == Min({ s.n : s \in c.at }) IN
    [c EXCEPT !.con = FALSE, !.at = { [s EXCEPT !.lost = @ + LostWithIt] : s \in @ },
              !.reqs = [j \in 1..Len(@) |-> IF j > from /\ (@[j].risk = "none" \/ how = "peer") THEN [@[j] EXCEPT !.risk = how] ELSE @[j]]]
=============================================================================
