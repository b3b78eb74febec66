------------------------------ MODULE MCReader ------------------------------
(* All programs of calls on the readers of small messages. *)
EXTENDS Reader, Json, IOUtils

IntV(n) == <<2, 1, n>>
Seq48(c) == <<48, Len(c)>> \o c
Ctx(n, c) == <<160 + n, Len(c)>> \o c
CtxL(n, c) == <<160 + n, 130, 0, Len(c)>> \o c
Ind(t, c) == <<t, 128>> \o c \o <<0, 0>>

Quick == {
    Ctx(0, IntV(5)) \o IntV(6),
    Seq48(Ctx(0, IntV(5)) \o Ctx(1, <<>>)) \o <<1, 1, 255>>,
    Ind(96, Ctx(0, IntV(0)) \o Ind(161, <<>>)) \o <<5>>,
    Ind(96, Ind(160, IntV(7))) \o IntV(8),
    Seq48(Ind(160, IntV(0)) \o <<12, 1, 65>>),
    CtxL(0, Seq48(<<>>)) \o Ind(48, <<>>),
    Seq48(Ctx(0, <<2, 3, 1>>) \o IntV(9)),          \* a value that goes beyond its sequence
    Seq48(<<160, 9, 1>>) \o IntV(3),                \* a sequence that goes beyond its parent
    Ind(49, <<0, 1, 2>>)                            \* a zero that is not an end
}
Deep == Quick \cup {
    Ind(96, Ind(107, Ind(160, Ind(99, Ctx(0, IntV(1)) \o Ind(161, Ind(49, Ctx(0, <<12, 2, 0, 0>>))))))),
    Seq48(Seq48(Seq48(IntV(1)) \o IntV(2)) \o IntV(3)) \o IntV(4),
    Ind(48, Seq48(Ind(48, IntV(1)) \o IntV(2)) \o IntV(3)) \o IntV(4),
    Ctx(0, <<13, 2, 1, 2>>) \o Ctx(1, <<9, 3, 128, 0, 1>>) \o Ctx(2, <<1, 1, 0>>),
    <<48, 128, 0>>, <<48, 132, 0, 0, 0, 1, 0>>, <<48, 129>>
}
Messages == IF IOEnv.TIER = "thorough" THEN Deep ELSE Quick
MaxReaders == 4
Depth == IF IOEnv.TIER = "thorough" THEN 6 ELSE 4

VARIABLES st, hist
vars == <<st, hist>>

Init == \E m \in Messages : st = RInit(m) /\ hist = <<>>

TagsAt(x) == IF Left(x) = 0 THEN {48} ELSE {st.data[x.pos], 111}

Calls(r) ==
    LET x == st.rd[r] IN
    { [call |-> "start", r |-> r, arg |-> t] : t \in TagsAt(x) }
    \cup { [call |-> k, r |-> r, arg |-> 0] : k \in {"check", "end", "peek", "byte", "int", "bool", "str"} }
    \cup { [call |-> "part", r |-> r, arg |-> n] : n \in {0, 1} }

Next == \E r \in 1..Len(st.rd) : /\ ~st.rd[r].lost
                                 /\ Len(hist) < Depth
                                 /\ \E c \in Calls(r) :
                                     /\ c.call \in {"start", "part"} => Len(st.rd) < MaxReaders
                                     /\ st' = RCall(st, c).st
                                     /\ hist' = Append(hist, c)
Spec == Init /\ [][Next]_vars

View == st
Confined == Disjoint(st) /\ Inside(st)
(* No call on one reader changes another one. *)
OthersKept == [][\A i \in 1..Len(st.rd) : hist' # hist /\ hist'[Len(hist')].r # i => st'.rd[i] = st.rd[i]]_vars

(* Every transition that is explored is a test: the way to it and its call. *)
Emit == PrintT("CASE " \o ToJson([data |-> st.data, calls |-> hist']))
=============================================================================
