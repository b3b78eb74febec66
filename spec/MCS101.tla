------------------------------- MODULE MCS101 -------------------------------
(***************************************************************************)
(* C20 - C22: streams of frames, whole (C20), with one fault (C21), and    *)
(* with any sequence of packets (C22).  Sound compares what a receiver may *)
(* make of them with what was meant; each stream is printed for the driver.*)
(***************************************************************************)
EXTENDS S101, TLC, Json, IOUtils

Prop == IOEnv.PROP
Thorough == IOEnv.TIER = "thorough"

(* An item that is sent: a message in packets of some payloads, or a keep-alive. *)
Whole(p) == [k |-> "msg", parts |-> <<p>>]
Parts(ps) == [k |-> "msg", parts |-> ps]
Ka(k) == [k |-> k, parts |-> <<>>]

FlagsOf(j, n) == (IF j = 1 THEN FirstFlag ELSE 0) + (IF j = n THEN LastFlag ELSE 0)
BytesOf(x) ==
    IF x.k = "kreq" THEN KeepAlive(KeepAliveRequest)
    ELSE IF x.k = "kres" THEN KeepAlive(KeepAliveResponse)
    ELSE Concat([j \in 1..Len(x.parts) |-> Packet(FlagsOf(j, Len(x.parts)), x.parts[j])])
Meant(x) == IF x.k = "msg" THEN MsgOut(Concat(x.parts)) ELSE Out(x.k)

Items == { Whole(<<>>), Whole(<<96, 0>>), Whole(<<253, 254, 255, 248, 247>>), Parts(<<<<1>>, <<2>>>>), Parts(<<<<255>>, <<>>, <<254, 3>>>>),
           Parts(<<<<1>>, <<2>>, <<3>>, <<4>>>>), Ka("kreq"), Ka("kres") }
Sequences20 == UNION { [1..n -> Items] : n \in 0..(IF Thorough THEN 4 ELSE 3) }

(* C19: what is sent is proper, and the frames of the message *)
Payloads == UNION { [1..n -> {0, 13, 247, 248, 253, 254, 255}] : n \in 0..(IF Thorough THEN 4 ELSE 3) }
Sequences19 == { <<Whole(p)>> : p \in Payloads } \cup { <<Parts(<<p, <<255>>>>)>> : p \in { x \in Payloads : Len(x) < 3 } } \cup { <<Ka("kreq")>>, <<Ka("kres")>> }

(* One fault in the first frames; a message follows. *)
Faulty == { <<Whole(<<96, 0>>)>>, <<Whole(<<255, 3>>)>>, <<Parts(<<<<1>>, <<2>>>>)>>, <<Ka("kreq"), Whole(<<5>>)>> }
          \cup (IF Thorough THEN { <<Parts(<<<<253>>, <<9>>, <<254>>>>)>>, <<Ka("kres"), Ka("kreq")>>, <<Whole(<<>>)>>, <<Whole(<<1, 2, 3>>), Parts(<<<<7>>, <<248>>>>)>> } ELSE {})
After == Whole(<<42>>)
Values == IF Thorough THEN 0..255 ELSE {0, 1, 2, 14, 32, 64, 128, 192, 221, 222, 223, 247, 248, 253, 254, 255}
(* Losing all of a middle packet goes unnoticed: packets are not numbered. *)
Shortest == 11
Faults(b, whole) ==
    { [b EXCEPT ![j] = v] : j \in 1..Len(b), v \in Values }
    \cup { [b EXCEPT ![j] = @ ^^ v] : j \in 1..Len(b), v \in {1, 2, 4, 8, 16, 32, 64, 128} }
    \cup { SubSeq(b, 1, j - 1) \o SubSeq(b, j + 1, Len(b)) : j \in 1..Len(b) }
    \cup { SubSeq(b, 1, j) \o <<v>> \o SubSeq(b, j + 1, Len(b)) : j \in 0..Len(b), v \in {0, 253, 254, 255, 1} }
    \cup { SubSeq(b, 1, j) : j \in 0..(Len(b) - 1) }
    \cup UNION { { SubSeq(b, 1, i - 1) \o SubSeq(b, j, Len(b)) : j \in { n \in (i + 2)..Len(b) : whole \/ n - i <= Shortest } } : i \in { n \in 1..Len(b) : (n % 3) = 1 } }

(* Packets and other frames in any order *)
Units == <<
    [k |-> "first", b |-> Packet(FirstFlag, <<1>>), p |-> <<1>>],
    [k |-> "mid", b |-> Packet(0, <<2>>), p |-> <<2>>],
    [k |-> "last", b |-> Packet(LastFlag, <<3, 255>>), p |-> <<3, 255>>],
    [k |-> "single", b |-> Packet(FirstFlag + LastFlag, <<4>>), p |-> <<4>>],
    [k |-> "lastempty", b |-> Packet(LastFlag + EmptyFlag, <<>>), p |-> <<>>],
    [k |-> "midempty", b |-> Packet(EmptyFlag, <<7>>), p |-> <<>>],
    [k |-> "kreq", b |-> KeepAlive(KeepAliveRequest), p |-> <<>>],
    [k |-> "other", b |-> Frame(<<0, 13, 0, 1, 0, 1, 2, 31, 2, 5>>), p |-> <<>>],
    [k |-> "bad", b |-> [Packet(0, <<6>>) EXCEPT ![11] = 5], p |-> <<>>],
    [k |-> "badka", b |-> [KeepAlive(KeepAliveRequest) EXCEPT ![5] = 9], p |-> <<>>],
    [k |-> "cut", b |-> SubSeq(Packet(0, <<6, 7>>), 1, 8), p |-> <<>>],
    [k |-> "dtd", b |-> Frame(<<0, 14, 0, 1, 0, 9, 2, 31, 2, 5>>), p |-> <<>>],
    [k |-> "esc", b |-> SubSeq(Packet(0, <<6, 7>>), 1, 9) \o <<CE, EOF>>, p |-> <<>>] >>
Sequences22 == UNION { [1..n -> 1..13] : n \in 1..(IF Thorough THEN 4 ELSE 3) }
               \cup { <<1>> \o q : q \in [1..3 -> 1..13] }

VARIABLE c
Init ==
    CASE Prop = "C19" -> \E q \in Sequences19 : c = [q |-> q, in |-> BytesOf(q[1])]
      [] Prop = "C20" -> \E q \in Sequences20 : c = [q |-> q, in |-> Concat([j \in 1..Len(q) |-> BytesOf(q[j])])]
      [] Prop = "C21" -> \E q \in Faulty : \E f \in Faults(Concat([j \in 1..Len(q) |-> BytesOf(q[j])]),
                                                             \A j \in 1..Len(q) : q[j].k # "msg" \/ Len(q[j].parts) < 3) :
                            c = [q |-> q, in |-> f \o BytesOf(After)]
      [] Prop = "C22" -> \E us \in { Units } : \E q \in Sequences22 :
                            c = [q |-> [j \in 1..Len(q) |-> [k |-> us[q[j]].k, p |-> us[q[j]].p]],
                                 in |-> Concat([j \in 1..Len(q) |-> us[q[j]].b])]
Next == FALSE /\ c' = c
Spec == Init /\ [][Next]_c

(* C22 by its words: which messages are complete *)
Tell(q) ==   \* what must be delivered, leaving reports aside
    LET u(j) == q[j]
        Breaks == {"first", "single", "bad", "badka", "cut", "dtd", "esc"}
        StartOf(j) == \* the first packet of the message of which j is the last; 0 if incomplete
            IF \E i \in 1..(j - 1) : u(i).k = "first" /\ \A n \in (i + 1)..(j - 1) : u(n).k \notin Breaks \cup {"last", "lastempty"}
            THEN CHOOSE i \in 1..(j - 1) : u(i).k = "first" /\ \A n \in (i + 1)..(j - 1) : u(n).k \notin Breaks \cup {"last", "lastempty"}
            ELSE 0
        At(j) == CASE u(j).k = "single" -> <<MsgOut(u(j).p)>>
                   [] u(j).k = "kreq" -> <<Out("kreq")>>
                   [] u(j).k \in {"last", "lastempty"} ->
                      IF StartOf(j) = 0 THEN <<>>
                      ELSE <<MsgOut(Concat([n \in 1..(j - StartOf(j) + 1) |-> u(StartOf(j) + n - 1).p]))>>
                   [] OTHER -> <<>> IN
    Concat([j \in 1..Len(q) |-> At(j)])

NoErr(o) == SelectSeq(o, LAMBDA x : x.k # "err")
Subsequence(a, b) == \* a is b with some left out
    LET m == FoldLeft(LAMBDA n, x : IF n < Len(a) /\ a[n + 1] = x THEN n + 1 ELSE n, 0, b) IN m = Len(a)

Sound ==
    LET outs == Outcomes(c.in) IN
    CASE Prop = "C19" ->
         LET x == c.q[1] IN
         IF x.k # "msg" THEN Proper(c.in) /\ Verifies(Unescaped(c.in))
         ELSE LET fs == [j \in 1..Len(x.parts) |-> Packet(FlagsOf(j, Len(x.parts)), x.parts[j])] IN
              /\ FramesOf(fs, Concat(x.parts))
              /\ ~FramesOf(Tail(fs), Concat(x.parts))
              /\ ~FramesOf(fs, Append(Concat(x.parts), 0))
      [] Prop = "C20" -> outs = { [j \in 1..Len(c.q) |-> Meant(c.q[j])] }
      [] Prop = "C21" ->
         \A o \in outs :
            LET d == NoErr(o) IN
            /\ d # <<>> /\ d[Len(d)] = Meant(After)
            /\ Subsequence(SubSeq(d, 1, Len(d) - 1), [j \in 1..Len(c.q) |-> Meant(c.q[j])])
      [] Prop = "C22" -> \A o \in outs : NoErr(o) = Tell(c.q)

Emit == PrintT("CASE " \o ToJson([in |-> c.in, sent |-> IF Prop \in {"C19", "C20"} THEN [j \in 1..Len(c.q) |-> Meant(c.q[j])] ELSE <<>>]))
=============================================================================
