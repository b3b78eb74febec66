---------------------------- MODULE TraceReader ----------------------------
(***************************************************************************)
(* C05: calls on the readers of the real code.  reset carries the data;    *)
(* call: call, r, arg, what, val, and of every reader len, off and top.    *)
(***************************************************************************)
EXTENDS Reader, Judge

RFresh(e) == RInit(e.data)

(* Is the observed result the one expected? *)
Same(c, x, val) ==
    IF c = "start"
    THEN /\ Len(val) = 2 /\ val[2] = x.val[2]
         /\ IF x.val[1] > 0 THEN val[1] = x.val[1]
            ELSE IF x.val[1] = -1 THEN val[1] < 0
            ELSE val[1] <= 0
    ELSE val = x.val

RJudgement(st, e) ==
    IF e.panic # "" THEN Bad(Lost, e.call \o " panics: " \o e.panic)
    ELSE IF e.call = "odd" THEN Good(Lost, "odd")
    ELSE IF st.rd[e.r].lost THEN Good(Lost, "past errors")
    ELSE LET x == RCall(st, e) IN
         IF x.what = "err" /\ e.what = "ok" THEN Bad(Lost, e.call \o " succeeds where it must not")
         ELSE IF x.what = "ok" /\ e.what = "err" THEN Bad(Lost, e.call \o " fails where it must not")
         ELSE IF x.what = "ok" /\ ~Same(e.call, x, e.val) THEN Bad(Lost, e.call \o " gives another result")
         ELSE IF x.what = "free" THEN
              \* whatever it did to this reader, it touched no other one
              LET y == IF Len(e.rd) > Len(x.st.rd) THEN [x.st EXCEPT !.rd = Append(@, [NewR(1, 0) EXCEPT !.lost = TRUE])] ELSE x.st IN
              IF \A i \in 1..Len(y.rd) : Seen(y.rd[i], e.rd[i])
              THEN Good(y, "free") ELSE Bad(Lost, e.call \o " moves another reader")
         ELSE IF Len(e.rd) # Len(x.st.rd) THEN Bad(Lost, e.call \o " opens another reader than it must")
         ELSE IF \E i \in 1..Len(x.st.rd) : ~Seen(x.st.rd[i], e.rd[i])
              THEN Bad(Lost, "after " \o e.call \o " a reader is not where it must be")
         ELSE Good(x.st, e.call \o " " \o x.what)
=============================================================================
