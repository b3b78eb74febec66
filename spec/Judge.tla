------------------------------- MODULE Judge -------------------------------
(***************************************************************************)
(* Validation of a recorded trace against a specification that, for each   *)
(* event of the real code, says which state it leads to and whether it is  *)
(* one that the specification allows.                                      *)
(*                                                                         *)
(* Judgement(s, e) is a record                                             *)
(*    st     the state after the event                                     *)
(*    bad    "" if the event is allowed in state s, otherwise the reason   *)
(*    known  "" or the name of the listed finding that the event shows     *)
(*    cls    the class the event is counted under                          *)
(* Fresh(e) is the state after the "reset" event e; states are records     *)
(* with a field lost.  Once an event is bad and the judgement returns Lost *)
(* as state, the events up to the next reset are only searched for panics.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Judgement(_, _), Fresh(_)

Trace == ndJsonDeserialize(IOEnv.TRACE)

Lost == [lost |-> TRUE]

Good(t, cls) == [st |-> t, bad |-> "", known |-> "", cls |-> cls]
Bad(t, why) == [st |-> t, bad |-> why, known |-> "", cls |-> "bad"]
Known(t, k) == [st |-> t, bad |-> "", known |-> k, cls |-> "known"]

VARIABLES jl, js

Count(cls) ==
    LET c == TLCGet(1) IN
    TLCSet(1, IF cls \in DOMAIN c THEN [c EXCEPT ![cls] = @ + 1] ELSE (cls :> 1) @@ c)

JInit == jl = 1 /\ js = Lost /\ TLCSet(1, [none |-> 0])

JNext ==
    /\ jl <= Len(Trace)
    /\ jl' = jl + 1
    /\ LET e == Trace[jl] IN
       IF e.op = "reset" THEN js' = Fresh(e)
       ELSE IF e.op = "fatal"
       THEN js' = Lost /\ PrintT("MISMATCH " \o ToString(jl) \o " the program died: " \o e.why)
       ELSE IF js.lost
       THEN /\ UNCHANGED js
            /\ ("panic" \in DOMAIN e /\ e.panic # "") => PrintT("MISMATCH " \o ToString(jl) \o " panics: " \o e.panic)
       ELSE \E j \in {Judgement(js, e)} :
            /\ js' = j.st
            /\ Count(j.cls)
            /\ j.bad # "" => PrintT("MISMATCH " \o ToString(jl) \o " " \o j.bad)
            /\ j.known # "" => PrintT("KNOWN " \o ToString(jl) \o " " \o j.known)

JSpec == JInit /\ [][JNext]_<<jl, js>>

Accepted ==
    /\ PrintT("CLASSES " \o ToJson(TLCGet(1)))
    /\ PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1) \o " of " \o ToString(Len(Trace)))
=============================================================================
