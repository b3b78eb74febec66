------------------------------- MODULE MCPair -------------------------------
(***************************************************************************)
(* C33: two receivers of S101, each with its own stream, whose pieces they *)
(* get in any order.  What each delivers is what it delivers alone.  The   *)
(* flawed designs, in which the two share a part of their state, must be   *)
(* told from the correct one by some order.                                *)
(***************************************************************************)
EXTENDS S101, TLC, Json, IOUtils

Deep == IOEnv.TIER = "thorough"

\* The pieces of a stream, and what they deliver.
Halves(f) == LET n == (3 * Len(f)) \div 5 IN << SubSeq(f, 1, n), SubSeq(f, n + 1, Len(f)) >>
Streams ==
    << [pieces |-> << Packet(FirstFlag, <<1, 255>>), Packet(LastFlag, <<2>>) >>, sent |-> << MsgOut(<<1, 255, 2>>) >>],
       [pieces |-> Halves(Packet(FirstFlag + LastFlag, <<7, 250, 8>>)) \o << KeepAlive(KeepAliveRequest) >>,
        sent |-> << MsgOut(<<7, 250, 8>>), Out("kreq") >>],
       [pieces |-> << Packet(FirstFlag, <<>>) >> \o Halves(Packet(0, <<5, 254>>)) \o << Packet(LastFlag + EmptyFlag, <<>>) >>,
        sent |-> << MsgOut(<<5, 254>>) >>],
       [pieces |-> << Packet(FirstFlag, <<9>>), KeepAlive(KeepAliveResponse), Packet(LastFlag, <<6>>) >>,
        sent |-> << Out("kres"), MsgOut(<<9, 6>>) >>] >>

Flaws == {"none", "one message", "one frame", "one flag"}

VARIABLES pair, flaw, at, s, out, order
vars == <<pair, flaw, at, s, out, order>>

Init == /\ pair \in (1..Len(Streams)) \X (1..Len(Streams)) /\ flaw \in Flaws
        /\ at = <<0, 0>> /\ s = <<DecInit, DecInit>> /\ out = << <<>>, <<>> >> /\ order = <<>>

Of(k) == Streams[pair[k]]
\* of streams without fault there is one outcome
Fed1(st, in) == CHOOSE x \in Runs({ [s |-> st, o |-> <<>>] }, in) : TRUE

Get(k) == /\ at[k] < Len(Of(k).pieces)
          /\ at' = [at EXCEPT ![k] = @ + 1]
          /\ order' = Append(order, k)
          /\ \E x \in { Fed1(s[k], Of(k).pieces[at[k] + 1]) } :
             /\ out' = [out EXCEPT ![k] = @ \o x.o]
             /\ LET t == x.s  o == 3 - k IN
                s' = [s EXCEPT ![k] = t,
                               ![o] = CASE flaw = "one message" -> [@ EXCEPT !.open = t.open, !.msg = t.msg]
                                        [] flaw = "one frame" -> [@ EXCEPT !.within = t.within, !.esc = t.esc, !.buf = t.buf, !.odd = t.odd]
                                        [] flaw = "one flag" -> [@ EXCEPT !.open = t.open]
                                        [] OTHER -> @]
          /\ UNCHANGED <<pair, flaw>>
Next == Get(1) \/ Get(2)
Spec == Init /\ [][Next]_vars

Done == \A k \in 1..2 : at[k] = Len(Of(k).pieces)
Right == \A k \in 1..2 : out[k] = Of(k).sent
Alone == \A j \in 1..Len(Streams) : Outcomes(Concat(Streams[j].pieces)) = { Streams[j].sent }
ASSUME Alone

Sound == flaw = "none" /\ Done => Right
Seen == IF Done /\ ~Right /\ flaw \notin TLCGet(7) THEN TLCSet(7, TLCGet(7) \cup {flaw}) ELSE TRUE
ASSUME TLCSet(7, {})
Found == IF TLCGet(7) = Flaws \ {"none"} THEN TRUE ELSE PrintT(<<"flaws found", TLCGet(7)>>) /\ FALSE

Emit == (flaw = "none" /\ Done) =>
        PrintT("CASE " \o ToJson([pieces |-> [k \in 1..2 |-> Of(k).pieces], sent |-> [k \in 1..2 |-> Of(k).sent], order |-> order]))
=============================================================================
