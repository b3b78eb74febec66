------------------------------ MODULE MCStream ------------------------------
(***************************************************************************)
(* C31: from the bytes of the provider to the tree of the client.          *)
(*                                                                         *)
(* A stream is a sequence of segments: messages in one packet or in        *)
(* several, parts of them, damaged ones, keep-alives, noise, messages that *)
(* cannot be decoded.  Message j puts an element 10 + i below the root and *)
(* gives parameter 1 the value j, so that a tree shows which messages were *)
(* applied and which one last.  Sound: whatever a receiver of S101 may     *)
(* make of the stream, the tree is that of the messages that arrived       *)
(* intact, which Intact tells from the segments alone.  The flawed designs *)
(* at the end must be told from a correct one by some stream.              *)
(***************************************************************************)
EXTENDS EmberTree, S101, Json, IOUtils

Thorough == IOEnv.TIER = "thorough"

Head1(i) == <<96, 31, 107, 29, 160, 7, 99, 5, 160, 3, 2, 1, 10 + i>>
Tail1(j) == <<160, 18, 97, 16, 160, 3, 2, 1, 1, 161, 9, 49, 7, 162, 5, 2, 3, 1, 0, j>>
Message(i, j) == Head1(i) \o Tail1(j)
Els(i, j) == <<[El0 EXCEPT !.k = "node", !.p = <<10 + i>>],
               [El0 EXCEPT !.k = "param", !.p = <<1>>, !.has = TRUE,
                           !.f = <<[k |-> 2, t |-> "int", v |-> <<0, 0, 0, 0, 0, 1, 0, j>>]>>]>>
Start == <<[El0 EXCEPT !.k = "param", !.p = <<1>>, !.has = TRUE, !.f = <<[k |-> 2, t |-> "int", v |-> <<0, 0, 0, 0, 0, 0, 0, 99>>]>>]>>
Tree0 == Apply(NoTree, Start).t

Kinds == { "whole", "first", "mid", "last", "lastempty", "kreq", "kres", "bad", "badlast", "cut", "esc", "noise", "undec", "nothing", "dtd" }
BytesAt(k, j) ==
    CASE k = "whole" -> Packet(FirstFlag + LastFlag, Message(j, j))
      [] k = "first" -> Packet(FirstFlag, Head1(j))
      [] k = "mid" -> Packet(EmptyFlag, <<5, 6>>)
      [] k = "last" -> Packet(LastFlag, Tail1(j))
      [] k = "lastempty" -> Packet(LastFlag + EmptyFlag, <<>>)
      [] k = "kreq" -> KeepAlive(KeepAliveRequest)
      [] k = "kres" -> KeepAlive(KeepAliveResponse)
      [] k = "bad" -> [Packet(FirstFlag + LastFlag, Message(j, j)) EXCEPT ![23] = @ ^^ 4]
      [] k = "badlast" -> [Packet(LastFlag, Tail1(j)) EXCEPT ![25] = @ ^^ 1]
      [] k = "cut" -> SubSeq(Packet(FirstFlag + LastFlag, Message(j, j)), 1, 30)
      [] k = "esc" -> SubSeq(Packet(LastFlag, Tail1(j)), 1, 20) \o <<CE, EOF>>
      [] k = "noise" -> <<0, 65, 7>>
      [] k = "undec" -> Packet(FirstFlag + LastFlag, SubSeq(Message(j, j), 1, 16))
      [] k = "nothing" -> Packet(FirstFlag + LastFlag, <<96, 0>>)
      [] k = "dtd" -> Frame(<<0, 14, 0, 1, FirstFlag + LastFlag, 9, 2, 31, 2>> \o Message(j, j))

Depth == IF Thorough THEN 4 ELSE 3
Sequences == UNION { [1..n -> Kinds] : n \in 1..Depth }
             \cup { <<"first">> \o q \o <<"last">> : q \in [1..2 -> Kinds] }
             \cup { q \o <<"first", "last", "whole">> : q \in [1..2 -> Kinds] }

VARIABLE q
Init == q \in Sequences
Next == FALSE /\ q' = q
Spec == Init /\ [][Next]_q

Stream(s) == Concat([j \in 1..Len(s) |-> BytesAt(s[j], j)])

(* Which messages arrive intact, by the words of the property: all in one packet, *)
(* and those whose packets follow each other with only keep-alives between; noise  *)
(* may cost the message that is being received.  Each is <<i, j>>.                 *)
Breaks == {"first", "whole", "nothing", "undec", "bad", "badlast", "cut", "esc", "dtd"}
Begun(s, j, breaks) == { i \in 1..(j - 1) : s[i] = "first" /\ \A n \in (i + 1)..(j - 1) : s[n] \notin breaks \cup {"last", "lastempty"} }
Intact(s, breaks) ==
    Concat([j \in 1..Len(s) |->
        CASE s[j] = "whole" -> <<<<j, j>>>>
          [] s[j] = "last" /\ Begun(s, j, breaks) # {} -> <<<<Max(Begun(s, j, breaks)), j>>>>
          [] OTHER -> <<>>])
TreeOf(ms) == FoldLeft(LAMBDA t, m : Apply(t, Els(m[1], m[2])).t, Tree0, ms)

(* What a client makes of what its receiver delivers *)
Delivered(outs) == LET ms == SelectSeq(outs, LAMBDA x : x.k = "msg") IN [j \in 1..Len(ms) |-> ms[j].d]
Client(payloads) ==
    FoldLeft(LAMBDA t, d : LET m == Msg(d) IN IF m.st = "ok" THEN Apply(t, m.v).t ELSE t, Tree0, payloads)

Trees(s) == { Client(Delivered(o)) : o \in Outcomes(Stream(s)) }

(* Flawed designs, and that the streams tell them from a correct one *)
\* a receiver that keeps what came before the damage
Clean(s) == SelectSeq(s, LAMBDA k : k \notin {"bad", "badlast", "cut", "esc", "dtd"})
\* a client that gives up at the first message that it cannot decode
Until(s) == IF \E j \in 1..Len(s) : s[j] = "undec" THEN SubSeq(s, 1, (CHOOSE j \in 1..Len(s) : s[j] = "undec" /\ \A i \in 1..(j - 1) : s[i] # "undec") - 1) ELSE s
\* a client that applies the messages of one reading in the opposite order
Reversed(s) == LET ms == Intact(s, Breaks) IN [j \in 1..Len(ms) |-> ms[Len(ms) + 1 - j]]
\* a client that applies of a message that ends early what it has read of it
Half(s) == FoldLeft(LAMBDA t, j : IF s[j] = "undec" THEN Apply(t, <<Els(j, j)[1]>>).t ELSE t, TreeOf(Intact(s, Breaks)), [j \in 1..Len(s) |-> j])
Told(flaw, t, ts) == IF t \in ts THEN TRUE ELSE TLCSet(flaw, TRUE)
Flaws(ts) == /\ Told(11, TreeOf(Intact(Clean(q), Breaks \ {"bad"})), ts)
         /\ Told(12, TreeOf(Intact(Until(q), Breaks)), ts)
         /\ Told(13, TreeOf(Reversed(q)), ts)
         /\ Told(14, Half(q), ts)
ASSUME \A i \in 11..14 : TLCSet(i, FALSE)
Found == \A i \in 11..14 : TLCGet(i)

Sound ==
    LET ts == Trees(q) IN
    /\ ts \subseteq { TreeOf(Intact(q, Breaks)), TreeOf(Intact(q, Breaks \cup {"noise"})) }
    \* and one of these is the client's, whatever follows: it is not stuck
    /\ Len(q) < Depth =>
          { Client(Delivered(o)) : o \in Outcomes(Stream(q) \o Packet(FirstFlag + LastFlag, Message(9, 9))) }
          \subseteq { Apply(t, Els(9, 9)).t : t \in ts }
    /\ Flaws(ts)

ASSUME Msg(Message(3, 4)) = [st |-> "ok", v |-> Els(3, 4)]
ASSUME Msg(SubSeq(Message(3, 4), 1, 16)).st \in {"trunc", "cut"}

Emit == PrintT("CASE " \o ToJson([in |-> Stream(q), kreqs |-> Cardinality({ j \in 1..Len(q) : q[j] = "kreq" })]))
=============================================================================
