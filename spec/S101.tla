-------------------------------- MODULE S101 --------------------------------
(***************************************************************************)
(* S101 framing: what a sender of Ember messages may write, and what a     *)
(* receiver makes of any stream of bytes.                                  *)
(*                                                                         *)
(* A frame is BOF, the escaped bytes of its body and of its checksum, EOF. *)
(* The body of a packet is a header of nine bytes, the fifth of which are  *)
(* its flags, and the payload.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, SequencesExt

BOF == 254
EOF == 255
CE == 253
XOR == 32
Special == 248     \* this and all above are escaped

FirstFlag == 128
LastFlag == 64
EmptyFlag == 32

Ember == 0
KeepAliveRequest == 1
KeepAliveResponse == 2

---------------------------------------------------------------------------
(* The checksum: CRC-16/CCITT, reversed, initially all ones, complemented *)

RECURSIVE Shifted(_, _)
Shifted(c, n) == IF n = 0 THEN c
    ELSE Shifted(IF (c % 2) = 1 THEN (c \div 2) ^^ 33800 ELSE c \div 2, n - 1)
CrcTable == [i \in 0..255 |-> Shifted(i, 8)]

Crc(bs) == FoldLeft(LAMBDA c, b : (c \div 256) ^^ CrcTable[(c ^^ b) % 256], 65535, bs)
Checksum(body) == LET c == 65535 - Crc(body) IN <<c % 256, c \div 256>>
Verifies(bs) == Len(bs) >= 2 /\ Crc(bs) = 61624

---------------------------------------------------------------------------
(* Frames *)

Escape(bs) == FoldLeft(LAMBDA a, b : IF b < Special THEN Append(a, b) ELSE a \o <<CE, b ^^ XOR>>, <<>>, bs)
EscapedLen(bs) == Len(bs) + Cardinality({ j \in 1..Len(bs) : bs[j] >= Special })

Frame(body) == <<BOF>> \o Escape(body \o Checksum(body)) \o <<EOF>>

Header(flags) == <<0, 14, Ember, 1, flags, 1, 2, 31, 2>>
Packet(flags, payload) == Frame(Header(flags) \o payload)
KeepAlive(cmd) == Frame(<<0, 14, cmd, 1>>)

(* Is f a frame as it may be written?  Everything escaped that must be, nothing else. *)
Proper(f) ==
    /\ Len(f) >= 2 /\ f[1] = BOF /\ f[Len(f)] = EOF
    /\ \A j \in 2..(Len(f) - 1) :
          IF f[j] = CE THEN f[j + 1] >= (Special ^^ XOR) /\ f[j + 1] <= (255 ^^ XOR)
          ELSE f[j] < Special

(* What is between BOF and EOF of a proper frame *)
Unescaped(f) ==
    FoldLeft(LAMBDA a, b : IF b = CE THEN [a EXCEPT !.e = TRUE]
                           ELSE [e |-> FALSE, o |-> Append(a.o, IF a.e THEN b ^^ XOR ELSE b)],
             [e |-> FALSE, o |-> <<>>], SubSeq(f, 2, Len(f) - 1)).o
Body(f) == LET u == Unescaped(f) IN SubSeq(u, 1, Len(u) - 2)

MaxPayload == 1025    \* escaped bytes of one packet

Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

(* Are these the frames of a message? *)
FramesOf(frames, data) ==
    /\ Len(frames) > 0
    /\ \A j \in 1..Len(frames) : Proper(frames[j]) /\ Verifies(Unescaped(frames[j]))
    /\ LET bodies == [j \in 1..Len(frames) |-> Body(frames[j])] IN
       /\ \A j \in 1..Len(frames) :
             /\ Len(bodies[j]) >= 9
             /\ SubSeq(bodies[j], 1, 9) =
                  Header((IF j = 1 THEN FirstFlag ELSE 0) + (IF j = Len(frames) THEN LastFlag ELSE 0))
             /\ EscapedLen(bodies[j]) - 9 <= MaxPayload
       /\ Concat([j \in 1..Len(frames) |-> SubSeq(bodies[j], 10, Len(bodies[j]))]) = data

(* None carries nothing, unless the message is empty. *)
NoneEmpty(frames, data) == data = <<>> \/ \A j \in 1..Len(frames) : Len(Body(frames[j])) > 9

---------------------------------------------------------------------------
(* The receiver.                                                           *)
(*   within  after a BOF          esc  after an escape                     *)
(*   buf     bytes of the frame   odd  something was escaped, or not, that *)
(*                                     no sender writes so                 *)
(*   open    a message has begun  msg  its payload so far                  *)
(* Eat(s, b) are the possible <<state, outputs>> after one byte.  Outputs: *)
(* msg with its payload, kreq and kres for keep-alives, err for reports.   *)
(***************************************************************************)
Out(k) == [k |-> k, d |-> <<>>]
Err == Out("err")
MsgOut(d) == [k |-> "msg", d |-> d]

DecInit == [within |-> FALSE, esc |-> FALSE, odd |-> FALSE, buf |-> <<>>, open |-> FALSE, msg |-> <<>>]

Dropped(s) == [s EXCEPT !.open = FALSE, !.msg = <<>>]
Between(s) == [s EXCEPT !.within = FALSE, !.esc = FALSE, !.odd = FALSE, !.buf = <<>>]

Has(flags, f) == (flags & f) # 0

HandlePacket(s, flags, payload) ==
    IF ~Has(flags, FirstFlag) /\ ~s.open
    THEN { <<s, <<Err>>>>, <<s, <<>>>> }       \* its message has lost its start
    ELSE LET m == (IF Has(flags, FirstFlag) THEN <<>> ELSE s.msg) \o (IF Has(flags, EmptyFlag) THEN <<>> ELSE payload) IN
         IF Has(flags, LastFlag)
         THEN { <<Dropped(s), <<MsgOut(m)>>>> }
              \cup (IF Has(flags, FirstFlag) /\ Has(flags, EmptyFlag) THEN { <<Dropped(s), <<>>>> } ELSE {})
         ELSE { <<[s EXCEPT !.open = TRUE, !.msg = m], <<>>>> }

Handle(s, body) ==
    IF Len(body) < 3 THEN { <<s, <<Err>>>>, <<Dropped(s), <<Err>>>> }
    ELSE IF body[1] # 0 \/ body[2] # 14 THEN { <<s, <<Err>>>> }
    ELSE IF body[3] \in {KeepAliveRequest, KeepAliveResponse}
    THEN { <<s, <<Out(IF body[3] = KeepAliveRequest THEN "kreq" ELSE "kres")>>>> }
         \cup (IF Len(body) # 4 \/ body[4] # 1 THEN { <<s, <<Err>>>> } ELSE {})
    ELSE IF body[3] # Ember THEN { <<s, <<Err>>>> }
    ELSE IF Len(body) < 9 \/ body[6] # 1 \/ body[7] # 2 THEN { <<Dropped(s), <<Err>>>> }
    ELSE HandlePacket(s, body[5], SubSeq(body, 10, Len(body)))
         \cup (IF body[4] # 1 THEN { <<Dropped(s), <<Err>>>> } ELSE {})

Maybe(S) == { <<s, o>> : s \in S, o \in { <<>>, <<Err>> } }

EatBOF(s) ==
    LET begin == [Between(s) EXCEPT !.within = TRUE]
        pending == s.esc \/ s.buf # <<>> IN
    IF s.within /\ pending THEN Maybe({ Dropped(begin) })         \* a frame lost its end
    ELSE IF ~s.within /\ ~pending THEN { <<begin, <<>>>> }
    ELSE IF pending THEN Maybe({ Dropped(begin) })                \* noise, perhaps what is left of a frame
    ELSE Maybe({ begin, Dropped(begin) })

EatEOF(s) ==
    LET next == Between(s) IN
    IF s.within
    THEN IF s.esc \/ ~Verifies(s.buf) THEN { <<Dropped(next), <<Err>>>> }
         ELSE Handle(next, SubSeq(s.buf, 1, Len(s.buf) - 2))
              \cup (IF s.odd THEN { <<Dropped(next), <<Err>>>> } ELSE {})
    ELSE Maybe(IF s.esc \/ s.buf # <<>> THEN { Dropped(next) }    \* no frame ends here,
               ELSE { next, Dropped(next) })
         \cup (IF ~s.esc /\ Verifies(s.buf)                       \* or one without its BOF
               THEN Handle(next, SubSeq(s.buf, 1, Len(s.buf) - 2)) ELSE {})

Eat(s, b) ==
    IF b = BOF THEN EatBOF(s)
    ELSE IF b = EOF THEN EatEOF(s)
    ELSE { << IF s.esc THEN [s EXCEPT !.esc = FALSE, !.buf = Append(@, b ^^ XOR), !.odd = @ \/ (b ^^ XOR) < Special]
              ELSE IF b = CE THEN [s EXCEPT !.esc = TRUE]
              ELSE [s EXCEPT !.buf = Append(@, b), !.odd = @ \/ b >= Special], <<>> >> }

(* The states in which S, fed with in, can be after exactly outs.  n counts the outputs so far. *)
Goes(x, b, outs) ==
    { [s |-> y[1], n |-> x.n + Len(y[2])] :
        y \in { z \in Eat(x.s, b) : /\ x.n + Len(z[2]) <= Len(outs)
                                    /\ SubSeq(outs, x.n + 1, x.n + Len(z[2])) = z[2] } }
Fed(S, in, outs) ==
    LET all == FoldLeft(LAMBDA X, b : UNION { Goes(x, b, outs) : x \in X }, { [s |-> s, n |-> 0] : s \in S }, in)
    IN { x.s : x \in { y \in all : y.n = Len(outs) } }

(* Everything a receiver may make of a stream *)
RECURSIVE Runs(_, _)
Runs(X, in) ==
    IF in = <<>> THEN X
    ELSE Runs(UNION { { [s |-> y[1], o |-> x.o \o y[2]] : y \in Eat(x.s, in[1]) } : x \in X }, Tail(in))
Outcomes(in) == { x.o : x \in Runs({ [s |-> DecInit, o |-> <<>>] }, in) }
=============================================================================
