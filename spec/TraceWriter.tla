---------------------------- MODULE TraceWriter ----------------------------
(***************************************************************************)
(* C35: what a writer gives. Events:                                       *)
(*   start  tag, err            end  err                                   *)
(*   value  k, v, tag, err                                                 *)
(*   take   n bytes asked for, len bytes there, got those given, left      *)
(*          bytes then there; done: the program goes on only after all     *)
(*          bytes were taken, and kept, whether those given before are     *)
(*          still what they were                                           *)
(***************************************************************************)
EXTENDS Writer, Judge

WFresh(e) == [lost |-> FALSE, w |-> WInit, out |-> <<>>]

WJudgement(st, e) ==
    IF e.panic # "" THEN Bad(Lost, e.op \o " panics: " \o e.panic)
    ELSE IF e.op # "take" /\ e.err THEN Bad(Lost, e.op \o " fails")
    ELSE CASE e.op = "start" -> Good([st EXCEPT !.w = WStart(@, e.tag)], "start")
           [] e.op = "end" -> Good([st EXCEPT !.w = WEnd(@)], "end")
           [] e.op = "value" -> Good([st EXCEPT !.w = WValue(@, e)], "value " \o e.k)
           [] e.op = "take" ->
                LET out == st.out \o e.got
                    closed == st.w.open = <<>> IN
                IF ~e.kept THEN Bad(Lost, "bytes change after they were given")
                ELSE IF e.len # Len(e.got) + e.left THEN Bad(Lost, "the length is not that of what is there")
                ELSE IF Len(e.got) > e.n THEN Bad(Lost, "more is given than was asked for")
                ELSE IF e.got = <<>> /\ e.n > 0 /\ e.len > 0 THEN Bad(Lost, "nothing is given though there is something")
                ELSE IF closed /\ e.left = 0 /\ ~Tells(out, st.w.items) THEN Bad(Lost, "the bytes do not say what was written")
                \* what is complete and taken need not be looked at again
                ELSE IF closed /\ e.left = 0 THEN Good([st EXCEPT !.w = WInit, !.out = <<>>], "take all")
                ELSE Good([st EXCEPT !.out = out], IF closed THEN "take some" ELSE "take early")
           [] OTHER -> Assert(FALSE, <<"unknown event", e>>)
=============================================================================
