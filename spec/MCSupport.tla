----------------------------- MODULE MCSupport -----------------------------
(* Short histories of a logger (C28), of errors (C29) and of stacks (C30). *)
EXTENDS Support, Json, IOUtils

Prop == IOEnv.PROP
Deep == IOEnv.TIER = "thorough"
Depth == CASE Prop = "C28" -> IF Deep THEN 3 ELSE 2
           [] OTHER -> IF Deep THEN 5 ELSE 4

L == [error |-> 3, warn |-> 4, info |-> 5, debug |-> 6]
Set == {0, 2, 3, 4, 5, 6, 7, 255}
Parts == << [p |-> "lit", s |-> <<120, 32>>, n |-> 0], [p |-> "d", s |-> <<>>, n |-> -12], [p |-> "s", s |-> <<37, 100>>, n |-> 0] >>

VARIABLES lg, errs, st, hist
vars == <<lg, errs, st, hist>>
Init == /\ \E k \in (IF Prop = "C28" THEN {"console", "null"} ELSE {"console"}), l \in (IF Prop = "C28" THEN {2, 3, 4, 5, 6} ELSE {3}) :
              lg = [k |-> k, level |-> l] /\ hist = <<[do |-> "new", way |-> k, n |-> l]>>
        /\ errs = <<>>
        /\ st = << <<>>, <<>> >>
Do(do, way, n) == hist' = Append(hist, [do |-> do, way |-> way, n |-> n])

Log == \/ \E l \in Set : lg' = [lg EXCEPT !.level = l] /\ Do("level", "", l)
       \/ \E x \in Ways : lg' = lg /\ Do("log", x, 0)
Err == \/ errs' = Append(errs, NewErr(Parts, Len(hist))) /\ Do("make", "", 0)
       \/ errs' = Append(errs, NewErr(Parts, Len(hist))) /\ Do("wrap", "", 0)
       \/ errs' = errs /\ \E x \in {"wrap", "pass"} : Do(x, "nil", 0)
       \/ \E j \in 1..Len(errs) : errs' = [errs EXCEPT ![j] = PassedOn(@, Len(hist))] /\ Do("pass", "", j)
Stk == \E j \in {1, 2} :
       \/ \E x \in {"int", "str", "nil"} : st' = [st EXCEPT ![j] = Pushed(@, ToString(Len(hist)))] /\ Do("push", x, j)
       \/ st' = [st EXCEPT ![j] = Popped(@)] /\ Do("pop", "", j)

Next == /\ Len(hist) <= Depth
        /\ \/ Prop = "C28" /\ Log /\ UNCHANGED <<errs, st>>
           \/ Prop = "C29" /\ Err /\ UNCHANGED <<lg, st>>
           \/ Prop = "C30" /\ Stk /\ UNCHANGED <<lg, errs>>
Spec == Init /\ [][Next]_vars
View == <<lg, errs, st, hist>>

(* Verbosity is monotone: what a level prints, every more verbose one prints. *)
Monotone == \A a, b \in Set : a <= b => \A x \in Ways :
               Prints(L, [lg EXCEPT !.level = a], x) => Prints(L, [lg EXCEPT !.level = b], x)
Quiet == lg.k = "null" => \A x \in Ways : ~Prints(L, lg, x)
(* Trails only grow, and messages stay. *)
Trails == [][ \A j \in 1..Len(errs) : /\ errs'[j].msg = errs[j].msg
                                      /\ SubSeq(errs'[j].trail, 1, Len(errs[j].trail)) = errs[j].trail ]_vars
(* One pop undoes one push. *)
Undo == \A j \in 1..2 : Popped(Pushed(st[j], "x")) = st[j] /\ Top(Pushed(st[j], "x")) = "x"
TextOk == Text(Parts) = <<120, 32, 45, 49, 50, 37, 100>>

Emit == PrintT("CASE " \o ToJson(hist'))
=============================================================================
