----------------------------- MODULE TraceS101 -----------------------------
(***************************************************************************)
(* C19 - C22: what the real code wrote and what its decoder delivered.     *)
(*   enc    data, frames; same: the list gives the same every time         *)
(*   ka     cmd, out                                                       *)
(*   crc    in, v          valid  in, v                                    *)
(*   feed   in: one call of the decoder; outs: the calls of its handlers   *)
(*   done   sent: what was put into all that was fed since the reset       *)
(***************************************************************************)
EXTENDS S101, Judge

SFresh(e) == [lost |-> FALSE, dec |-> { DecInit }, got |-> <<>>]

Class(e) ==
    IF \E j \in 1..Len(e.outs) : e.outs[j].k = "msg" THEN "feed msg"
    ELSE IF \E j \in 1..Len(e.outs) : e.outs[j].k = "err" THEN "feed err"
    ELSE IF e.outs # <<>> THEN "feed ka"
    ELSE "feed"

SJudgement(st, e) ==
    IF "panic" \in DOMAIN e /\ e.panic # "" THEN Bad(Lost, "panics: " \o e.panic)
    ELSE CASE e.op = "enc" ->
              IF ~e.same THEN Bad(st, "the list of frames does not give the same frames again")
              ELSE IF FramesOf(e.frames, e.data) /\ NoneEmpty(e.frames, e.data) THEN Good(st, IF Len(e.frames) > 1 THEN "enc packets" ELSE "enc single")
              ELSE Bad(st, "these are not the frames of the message")
           [] e.op = "ka" -> IF e.out = KeepAlive(e.cmd) THEN Good(st, "keep-alive") ELSE Bad(st, "not the keep-alive frame")
           [] e.op = "crc" -> IF e.v = Crc(e.in) THEN Good(st, "crc") ELSE Bad(st, "another checksum")
           [] e.op = "valid" -> IF e.v = (Crc(e.in) = 61624) THEN Good(st, "valid") ELSE Bad(st, "a frame is taken for " \o ToString(e.v))
           [] e.op = "feed" ->
              LET after == Fed(st.dec, e.in, e.outs) IN
              IF after = {} THEN Bad(Lost, "no decoder delivers this")
              ELSE Good([st EXCEPT !.dec = after, !.got = @ \o e.outs], Class(e))
           [] e.op = "done" -> IF st.got = e.sent THEN Good(st, "all received") ELSE Bad(st, "something else was received than was sent")
           [] OTHER -> Assert(FALSE, <<"unknown event", e>>)
=============================================================================
