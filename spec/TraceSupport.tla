---------------------------- MODULE TraceSupport ----------------------------
(***************************************************************************)
(* C28 - C30: what real loggers, errors and stacks did.                    *)
(*   levels  the constants;  logger k, level;  with n: the n-th logger is   *)
(*           used from here on;  level to;  log way, parts,                *)
(*           out;  is: the level reported                                  *)
(*   make, wrap, pass  of, here, is: all errors [msg, trail], same: it is  *)
(*           the error that was passed in, none: there is no error         *)
(*   stack; push of, v; pop of, v                                          *)
(***************************************************************************)
EXTENDS Support, Judge

SFresh(e) == [lost |-> FALSE, L |-> [error |-> 3, warn |-> 4, info |-> 5, debug |-> 6], lgs |-> <<>>, at |-> 0, e |-> <<>>, s |-> <<>>]

SJudgement(st, e) ==
    IF e.panic # "" THEN Bad(Lost, "panics: " \o e.panic)
    ELSE CASE e.op = "levels" ->
              IF Ordered4(e.is) THEN Good([st EXCEPT !.L = e.is], "levels") ELSE Bad(Lost, "the levels are not ordered")
           [] e.op = "logger" ->
              IF e.k = "console" /\ e.is # e.level THEN Bad(Lost, "a new logger has another level")
              ELSE Good([st EXCEPT !.lgs = Append(@, [k |-> e.k, level |-> e.is]), !.at = Len(st.lgs) + 1], "logger " \o e.k)
           [] e.op = "with" -> Good([st EXCEPT !.at = e.n], IF Len(st.lgs) > 1 THEN "one of many" ELSE "")
           [] e.op = "level" ->
              IF e.is # e.to THEN Bad(Lost, "the level reported is not the one set")
              ELSE Good([st EXCEPT !.lgs[st.at].level = e.to], "level")
           [] e.op = "log" ->
              IF LogOk(st.L, st.lgs[st.at], e.way, e.parts, e.out)
              THEN Good(st, IF Prints(st.L, st.lgs[st.at], e.way) THEN "prints " \o e.way ELSE "silent " \o e.way)
              ELSE Bad(st, IF Prints(st.L, st.lgs[st.at], e.way) THEN "the message is not what is printed" ELSE "something is printed")
           [] e.op \in {"make", "wrap"} ->
              IF e.none THEN (IF e.nothing /\ e.is = st.e THEN Good(st, e.op \o " none") ELSE Bad(Lost, "an error out of none, or none out of one"))
              ELSE LET x == Append(st.e, NewErr(e.parts, e.here)) IN
                   IF e.nothing THEN Bad(Lost, "no error")
                   ELSE IF e.is # x THEN Bad(Lost, "an error without its message or the place where it was made")
                   ELSE IF ~e.same THEN Bad(Lost, "another error is wrapped")
                   ELSE Good([st EXCEPT !.e = x], e.op)
           [] e.op = "pass" ->
              IF e.none THEN (IF e.nothing /\ e.is = st.e THEN Good(st, "pass none") ELSE Bad(Lost, "an error out of none"))
              ELSE LET x == [st.e EXCEPT ![e.of] = PassedOn(@, e.here)] IN
                   IF e.nothing \/ e.is # x THEN Bad(Lost, "the trail does not gain exactly the place of the call")
                   ELSE Good([st EXCEPT !.e = x], "pass")
           [] e.op = "stack" -> Good([st EXCEPT !.s = Append(@, <<>>)], "stack")
           [] e.op = "push" -> Good([st EXCEPT !.s[e.of] = Pushed(@, e.v)], "push")
           [] e.op = "pop" ->
              IF e.v = Top(st.s[e.of])
              THEN Good([st EXCEPT !.s[e.of] = Popped(@)], IF st.s[e.of] = <<>> THEN "pop none" ELSE "pop")
              ELSE Bad(Lost, "another value is popped")
           [] OTHER -> Assert(FALSE, <<"unknown event", e>>)
=============================================================================
