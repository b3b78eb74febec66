---------------------------- MODULE TraceContent ----------------------------
(***************************************************************************)
(* C13: what real contents and values did.                                 *)
(*   new   k, f: a new object with these fields                            *)
(*   set   to, t, v, err, all                                              *)
(*   copy  from, to, err, all                                              *)
(*   ask   of, t, ok, v: a getter of type t;  is: the type it says it has  *)
(* all: what the getters of all objects return afterwards                  *)
(***************************************************************************)
EXTENDS Content, Judge

CFresh(e) == [lost |-> FALSE, o |-> <<>>]

AllOk(o, all) == Len(all) = Len(o) /\ \A j \in 1..Len(o) : all[j] = Seen(o[j])

CJudgement(st, e) ==
    IF e.panic # "" THEN Bad(Lost, "panics: " \o e.panic)
    ELSE CASE e.op = "new" ->
              LET o == Append(st.o, [k |-> e.k, f |-> [n \in { e.f[j].k : j \in 1..Len(e.f) } |->
                          LET x == CHOOSE y \in { e.f[j] : j \in 1..Len(e.f) } : y.k = n IN [t |-> x.t, v |-> x.v]]]) IN
              IF AllOk(o, e.all) THEN Good([st EXCEPT !.o = o], "new " \o e.k) ELSE Bad(Lost, "a new object has other contents")
           [] e.op = "set" ->
              LET o == SetAt(st.o, e.to, [t |-> e.t, v |-> e.v]) IN
              IF e.err THEN Bad(Lost, "a value is refused")
              ELSE IF AllOk(o, e.all) THEN Good([st EXCEPT !.o = o], "set " \o o[e.to.o].k)
              ELSE Bad(Lost, "setting a field does not set this field and no other")
           [] e.op = "copy" ->
              LET c == CopyTo(st.o, e.from, e.to) IN
              IF c.refused # e.err THEN Bad(Lost, IF e.err THEN "a copy is refused" ELSE "a copy of another type is accepted")
              ELSE IF AllOk(c.o, e.all) THEN Good([st EXCEPT !.o = c.o], IF c.refused THEN "copy refused" ELSE "copy")
              ELSE Bad(Lost, "copying changes something else")
           [] e.op = "ask" ->
              LET x == At(st.o, e.of) IN
              IF e.ok # (x.t = e.t) THEN Bad(st, IF e.ok THEN "a value of another type, or none, is returned" ELSE "a value is not returned")
              ELSE IF e.ok /\ e.v # x.v THEN Bad(st, "another value is returned")
              ELSE IF e.is # x.t \/ e.set # (x # Unset) THEN Bad(st, "the type that is told is another one")
              ELSE Good(st, IF e.ok THEN "ask" ELSE "ask refused")
           [] OTHER -> Assert(FALSE, <<"unknown event", e>>)
=============================================================================
