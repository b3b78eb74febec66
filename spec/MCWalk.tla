------------------------------- MODULE MCWalk -------------------------------
(***************************************************************************)
(* The design of GetTree, with every small tree of a provider that answers *)
(* in any order, and not always: a directory is asked for once the parent  *)
(* has been answered, at most MaxOut wait for their answers, and the end   *)
(* is when none does.  Walk judges how it ends, here and in the real code. *)
(* Each flaw of the design has to be found.                                *)
(***************************************************************************)
EXTENDS Walk, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

CONSTANT MaxOut

Deep == IOEnv.TIER = "thorough"
MaxSize == IF Deep THEN 5 ELSE 4

Flaws == {"none", "ends before children", "asks again", "no limit", "repeated answer ends", "forgets timeouts", "loses what waits"}

(* A tree is the parent of each of its elements 1..n; 0 is the root. *)
Trees == UNION { { p \in [1..n -> 0..(n - 1)] : \A i \in 1..n : p[i] < i } : n \in 0..MaxSize }

RECURSIVE PosIn(_, _)
PosIn(par, i) == IF i = 0 THEN <<>> ELSE Append(PosIn(par, par[i]), i)
Kids(par, i) == { k \in DOMAIN par : par[k] = i }

VARIABLES par, skip, flaw,
          asked,    \* in order
          out,      \* without answer so far
          waiting,  \* to be asked for later
          pending,  \* the client's count
          answers,  \* how often the provider has answered
          ends, err
vars == <<par, skip, flaw, asked, out, waiting, pending, answers, ends, err>>

All == {0} \cup DOMAIN par

Init == /\ par \in Trees
        /\ skip \in { s \in SUBSET ({0} \cup DOMAIN par) : Cardinality(s) <= 2 }
        /\ flaw \in Flaws
        /\ asked = <<0>> /\ out = {0} /\ waiting = <<>> /\ pending = 1 /\ answers = 0 /\ ends = 0 /\ err = FALSE

Limit == IF flaw = "no limit" THEN 100 ELSE MaxOut

(* After i was answered (kids) or has timed out: ask for what waits while there is room *)
Resume(i, kids, e) ==
    LET w == waiting \o SetToSeq(kids)
        room == Limit - (pending - 1)
        go == IF room <= 0 THEN 0 ELSE IF Len(w) < room THEN Len(w) ELSE room
        more == SubSeq(w, 1, go)
        p == pending - 1 + go IN
    /\ asked' = asked \o more
    /\ out' = (out \ {i}) \cup Range(more)
    /\ waiting' = IF flaw = "loses what waits" /\ Len(w) > room THEN <<>> ELSE SubSeq(w, go + 1, Len(w))
    /\ pending' = p
    /\ err' = (err \/ (e /\ flaw # "forgets timeouts"))
    /\ ends' = IF p = 0 \/ (flaw = "ends before children" /\ pending = 1 /\ i # 0 /\ ends = 0) THEN ends + 1 ELSE ends

Answer == \E i \in out \ skip :
          /\ answers' = answers + 1
          /\ Resume(i, Kids(par, i), FALSE)
          /\ UNCHANGED <<par, skip, flaw>>
TimesOut == \E i \in out \cap skip : Resume(i, {}, TRUE) /\ UNCHANGED <<par, skip, flaw, answers>>
(* An element is updated once more. *)
Again == /\ answers < Cardinality(All) + 1
         /\ \E i \in { asked[j] : j \in 1..Len(asked) } \ (out \cup skip \cup {0}) :
            /\ CASE flaw = "repeated answer ends" /\ pending > 0 -> Resume(i, {}, FALSE)
                 [] flaw = "asks again" -> /\ asked' = Append(asked, i) /\ UNCHANGED <<out, waiting, pending, ends, err>>
                 [] OTHER -> UNCHANGED <<asked, out, waiting, pending, ends, err>>
            /\ answers' = answers + 1
            /\ UNCHANGED <<par, skip, flaw>>

Next == Answer \/ TimesOut \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Answer) /\ WF_vars(TimesOut)

Positions(s) == { PosIn(par, i) : i \in s }
Wrong == WalkWrong(Positions(All), Positions(skip), [j \in 1..Len(asked) |-> PosIn(par, asked[j])], ends, err, TRUE)

Sound == flaw = "none" => /\ ends <= 1
                          /\ Cardinality(out) <= MaxOut
                          /\ pending = Cardinality(out)
                          /\ (ends = 1) <=> (out = {})
                          /\ (ends = 1) => Wrong = "" /\ waiting = <<>>
Ends == (flaw = "none") ~> (ends = 1)

Seen == IF (((ends > 0 \/ ~ENABLED (Answer \/ TimesOut)) /\ Wrong # "") \/ Cardinality(out) > MaxOut) /\ flaw \notin TLCGet(7)
        THEN TLCSet(7, TLCGet(7) \cup {flaw}) ELSE TRUE
ASSUME TLCSet(7, {})
Found == IF TLCGet(7) = Flaws \ {"none"} THEN TRUE ELSE PrintT(<<"flaws found", TLCGet(7)>>) /\ FALSE

-----------------------------------------------------------------------------
(* Cases *)
RECURSIVE Built(_, _)
Built(p, i) == [k |-> "node", q |-> FALSE, p |-> <<i>>, has |-> FALSE, f |-> <<>>,
                ch |-> [j \in 1..Cardinality(Kids(p, i)) |-> Built(p, SetToSortSeq(Kids(p, i), <)[j])]]
Case(order) == PrintT("CASE " \o ToJson([tree |-> [j \in 1..Cardinality(Kids(par, 0)) |-> Built(par, SetToSortSeq(Kids(par, 0), <)[j])],
                                         skip |-> SetToSeq(Positions(skip)), order |-> order]))
Emit == (flaw = "none" /\ ends = 1 /\ answers <= Cardinality(All)) =>
        \/ asked # <<0>> /\ skip # {} /\ Case("")
        \/ skip = {} /\ Case("") /\ Case("last") /\ Case("any")
        \/ asked = <<0>> /\ Case("")
=============================================================================
