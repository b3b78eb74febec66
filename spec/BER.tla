-------------------------------- MODULE BER --------------------------------
(***************************************************************************)
(* ITU-T X.690 (BER) as far as Ember+ uses it, over sequences of bytes.    *)
(*                                                                         *)
(* TLC's integers have 32 bits, so values that may not fit are kept as     *)
(* bytes: a 64-bit integer is its 8 bytes in two's complement, a float64   *)
(* its 8 IEEE 754 bytes, both most significant first.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Bitwise, TLC

Byte == 0..255

TagBoolean == 1
TagInteger == 2
TagBitString == 3
TagOctetString == 4
TagNull == 5
TagReal == 9
TagEnum == 10
TagUTF8 == 12
TagRelOID == 13
TagSequence == 48
TagSet == 49

Application(n) == 96 + n
Context(n) == 160 + n

Constructed(tag) == (tag \div 32) % 2 = 1

Slice(b, from, to) == SubSeq(b, from, to)

Rep(x, n) == [j \in 1..n |-> x]

(***************************************************************************)
(* Length octets.  st is "ok", "trunc" (the data ends too early) or        *)
(* "other" (not BER that we claim anything about).  n = -1 stands for the  *)
(* indefinite form; n = Huge for lengths beyond any data we look at.       *)
(***************************************************************************)
Huge == 1073741824

RECURSIVE BE(_)
BE(s) == IF s = <<>> THEN 0 ELSE BE(SubSeq(s, 1, Len(s) - 1)) * 256 + s[Len(s)]

RECURSIVE DropLead(_, _)
DropLead(s, x) == IF s # <<>> /\ s[1] = x THEN DropLead(Tail(s), x) ELSE s

LenAt(b, p, e) ==
    IF p > e THEN [st |-> "trunc", n |-> 0, next |-> p]
    ELSE IF b[p] < 128 THEN [st |-> "ok", n |-> b[p], next |-> p + 1]
    ELSE IF b[p] = 128 THEN [st |-> "ok", n |-> -1, next |-> p + 1]
    ELSE LET k == b[p] - 128 IN
         IF k > 4 THEN [st |-> "other", n |-> 0, next |-> p + 1]
         ELSE IF p + k > e THEN [st |-> "trunc", n |-> 0, next |-> p]
         ELSE LET s == DropLead(SubSeq(b, p + 1, p + k), 0) IN
              [st |-> "ok", n |-> IF Len(s) > 3 THEN Huge ELSE BE(s), next |-> p + k + 1]

(* Length octets in long form with k bytes, k = 1..4; k = 0 is the short form. *)
LenForm(n, k) ==
    IF k = 0 THEN <<n>>
    ELSE <<128 + k>> \o SubSeq(<<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>, 5 - k, 4)

(* The shortest definite length octets for n < 2^24. *)
LenOctets(n) ==
    IF n < 128 THEN <<n>>
    ELSE IF n < 256 THEN <<129, n>>
    ELSE IF n < 65536 THEN <<130, n \div 256, n % 256>>
    ELSE IF n < 16777216 THEN <<131, n \div 65536, (n \div 256) % 256, n % 256>>
    ELSE <<132, n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>

(***************************************************************************)
(* One item: tag t, content bytes c if primitive, items k if constructed.  *)
(* next is the position behind it.  A definite item that goes beyond the   *)
(* end e of what encloses it has status "trunc"; inside another definite   *)
(* item that is not truncation but an error, "other".                      *)
(* "open" : the data ends between the items of one of indefinite length;   *)
(* "cut" : it ends inside such an item.                                    *)
(***************************************************************************)
Item0 == [st |-> "ok", t |-> 0, c |-> <<>>, k |-> <<>>, next |-> 0]

RECURSIVE ItemAt(_, _, _), ItemsAt(_, _, _, _, _)

ItemAt(b, p, e) ==
    IF p > e THEN [Item0 EXCEPT !.st = "trunc"]
    ELSE LET t == b[p]
             l == LenAt(b, p + 1, e) IN
         IF t % 32 = 31 THEN [Item0 EXCEPT !.st = "other", !.t = t]
         ELSE IF l.st # "ok" THEN [Item0 EXCEPT !.st = l.st, !.t = t]
         ELSE IF l.n = -1 THEN
              IF ~Constructed(t) THEN [Item0 EXCEPT !.st = "other", !.t = t]
              ELSE LET ks == ItemsAt(b, l.next, e, TRUE, <<>>) IN
                   [st |-> ks.st, t |-> t, c |-> <<>>, k |-> ks.k, next |-> ks.next]
         ELSE IF l.n > e - l.next + 1 THEN [Item0 EXCEPT !.st = "trunc", !.t = t]
         ELSE IF Constructed(t) THEN
              LET ks == ItemsAt(b, l.next, l.next + l.n - 1, FALSE, <<>>) IN
              [st |-> IF ks.st = "ok" THEN "ok" ELSE "other",
               t |-> t, c |-> <<>>, k |-> ks.k, next |-> l.next + l.n]
         ELSE [st |-> "ok", t |-> t, c |-> SubSeq(b, l.next, l.next + l.n - 1),
               k |-> <<>>, next |-> l.next + l.n]

ItemsAt(b, p, e, indef, acc) ==
    IF p > e
    THEN [st |-> IF indef THEN "open" ELSE "ok", k |-> acc, next |-> p]
    ELSE IF indef /\ b[p] = 0
    THEN IF p + 1 > e THEN [st |-> "open", k |-> acc, next |-> p]
         ELSE IF b[p + 1] = 0 THEN [st |-> "ok", k |-> acc, next |-> p + 2]
         ELSE [st |-> "other", k |-> acc, next |-> p]
    ELSE LET it == ItemAt(b, p, e) IN
         IF it.st # "ok"
         THEN [st |-> IF it.st = "trunc" THEN "cut" ELSE it.st, k |-> acc, next |-> p]
         ELSE ItemsAt(b, it.next, e, indef,
                      Append(acc, [t |-> it.t, c |-> it.c, k |-> it.k]))

Parse(b) == ItemAt(b, 1, Len(b))

(***************************************************************************)
(* The outermost item of definite length that the data cut short (those    *)
(* around it are indefinite): its tag, how many of its bytes there are and *)
(* how many are missing; 0 missing if there is none.                       *)
(***************************************************************************)
RECURSIVE CutAt(_, _)
CutAt(b, p) ==
    LET none == [t |-> 0, left |-> 0, miss |-> 0] IN
    IF p > Len(b) THEN none
    ELSE IF b[p] = 0 THEN CutAt(b, p + 2)
    ELSE LET l == LenAt(b, p + 1, Len(b)) IN
         IF l.st # "ok" THEN none
         ELSE IF l.n = -1 THEN CutAt(b, l.next)
         ELSE LET left == Len(b) - l.next + 1 IN
              IF l.n > left THEN [t |-> b[p], left |-> left, miss |-> l.n - left]
              ELSE CutAt(b, l.next + l.n)

(* The outermost item of b announces a definite length. *)
Definite(b) == Len(b) >= 2 => b[2] # 128

-----------------------------------------------------------------------------
(* Integers *)

SignFill(c) == IF c[1] >= 128 THEN 255 ELSE 0

(* The 8 bytes of the value with content c, 1 to 8 bytes. *)
Int8(c) == Rep(SignFill(c), 8 - Len(c)) \o c

RECURSIVE Shortest(_)
(* The shortest two's complement content of the same value. *)
Shortest(c) ==
    IF Len(c) > 1 /\ \/ c[1] = 0 /\ c[2] < 128
                     \/ c[1] = 255 /\ c[2] >= 128
    THEN Shortest(Tail(c)) ELSE c

IntItem(tag, v8) == LET c == Shortest(v8) IN <<tag, Len(c)>> \o c

(* Small integers (|n| < 2^24) to and from their 8 bytes. *)
SmallInt8(n) ==
    IF n >= 0 THEN <<0, 0, 0, 0, n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
    ELSE LET m == -(n + 1) IN
         <<255, 255, 255, 255, 255 - m \div 16777216, 255 - ((m \div 65536) % 256),
           255 - ((m \div 256) % 256), 255 - (m % 256)>>

FitsInt32(v8) == Len(Shortest(v8)) <= 4

ToInt(v8) == \* only if FitsInt32
    IF v8[1] >= 128
    THEN -((((255 - v8[5]) * 256 + (255 - v8[6])) * 256 + (255 - v8[7])) * 256 + (255 - v8[8])) - 1
    ELSE ((v8[5] * 256 + v8[6]) * 256 + v8[7]) * 256 + v8[8]

-----------------------------------------------------------------------------
(* Relative OIDs: components in minimal base 128 *)

RECURSIVE Groups(_)
Groups(n) == IF n < 128 THEN <<n>> ELSE Append(Groups(n \div 128), n % 128)

Component(n) == LET g == Groups(n) IN
    [j \in 1..Len(g) |-> IF j < Len(g) THEN g[j] + 128 ELSE g[j]]

OidContent(oid) == FoldLeft(LAMBDA acc, n : acc \o Component(n), <<>>, oid)

RECURSIVE OidDecode(_, _, _, _)
(* st "big" for components beyond 2^31-1, "open" if the last does not end *)
OidDecode(c, j, cur, acc) ==
    IF j > Len(c) THEN [st |-> IF j = 1 \/ c[j - 1] < 128 THEN "ok" ELSE "open", v |-> acc]
    ELSE IF cur > 16777215 THEN [st |-> "big", v |-> acc]
    ELSE LET x == cur * 128 + (c[j] % 128) IN
         IF c[j] >= 128 THEN OidDecode(c, j + 1, x, acc)
         ELSE OidDecode(c, j + 1, 0, Append(acc, x))

Oid(c) == OidDecode(c, 1, 0, <<>>)

-----------------------------------------------------------------------------
(* Reals: binary encoding, base 2, as every Ember+ implementation writes it: *)
(* the mantissa is normalised to 1.f and the exponent is that of the number. *)

BitsOf(x, n) == [j \in 1..n |-> (x \div (2 ^ (n - j))) % 2]

Bits(s) == FoldLeft(LAMBDA acc, x : acc \o BitsOf(x, 8), <<>>, s)

ByteOf(bits) == FoldLeft(LAMBDA acc, x : acc * 2 + x, 0, bits)

Bytes(bits) == [j \in 1..(Len(bits) \div 8) |-> ByteOf(SubSeq(bits, 8 * j - 7, 8 * j))]

RECURSIVE DropTrail(_, _)
DropTrail(s, x) ==
    IF s # <<>> /\ s[Len(s)] = x THEN DropTrail(SubSeq(s, 1, Len(s) - 1), x) ELSE s

RZero == Rep(0, 8)
RInf == <<127, 240, 0, 0, 0, 0, 0, 0>>
RNegInf == <<255, 240, 0, 0, 0, 0, 0, 0>>

RExp(v8) == (v8[1] % 128) * 16 + v8[2] \div 16
RFrac(v8) == SubSeq(Bits(v8), 13, 64)
RIsNaN(v8) == RExp(v8) = 2047 /\ v8 # RInf /\ v8 # RNegInf
RIsZero(v8) == v8 = RZero \/ v8 = <<128, 0, 0, 0, 0, 0, 0, 0>>
RSign(v8) == v8[1] \div 128

(* What is read from content c: [st, nan, v]. *)
Real(c) ==
    LET no == [st |-> "other", nan |-> FALSE, v |-> RZero]
        ok(v) == [st |-> "ok", nan |-> FALSE, v |-> v] IN
    IF c = <<>> THEN ok(RZero)
    ELSE IF Len(c) = 1 THEN
         IF c[1] = 64 THEN ok(RInf)
         ELSE IF c[1] = 65 THEN ok(RNegInf)
         ELSE IF c[1] = 66 THEN [st |-> "ok", nan |-> TRUE, v |-> RZero]
         ELSE no
    ELSE IF c[1] < 128 \/ (c[1] \div 4) % 16 # 0 \/ c[1] % 4 = 3 THEN no
    ELSE LET xl == 1 + (c[1] % 4) IN
         IF Len(c) < 1 + xl + 1 THEN no
         ELSE LET xc == SubSeq(c, 2, 1 + xl)
                  x == ToInt(Int8(xc))
                  m == DropLead(Bits(SubSeq(c, 2 + xl, Len(c))), 0)
                  f == DropTrail(m, 0) IN
              IF f # <<>> /\ (x < -1023 \/ x > 1023) THEN [no EXCEPT !.st = "bad"]
              ELSE IF f = <<>> \/ (x = -1023 /\ f = <<1>>) \/ Len(m) > 53 \/ Len(c) > 1 + xl + 8 THEN no
              ELSE ok(Bytes(<<IF (c[1] \div 64) % 2 = 1 THEN 1 ELSE 0>>
                            \o BitsOf(x + 1023, 11) \o Tail(f) \o Rep(0, 53 - Len(f))))

(* What must be written for v8 (not NaN, not zero, not infinite), given the *)
(* content that was written: exponent shortest, mantissa without trailing   *)
(* zero bits.                                                               *)
RealShortest(c) ==
    IF Len(c) <= 1 THEN TRUE
    ELSE LET xl == 1 + (c[1] % 4) IN
         /\ Len(c) >= 2 + xl
         /\ Shortest(SubSeq(c, 2, 1 + xl)) = SubSeq(c, 2, 1 + xl)
         /\ c[Len(c)] % 2 = 1

-----------------------------------------------------------------------------
(* The two's complement content c, longer than n bytes, is a number of n *)
Fits(c, n) ==
    LET x == Len(c) - n IN \A j \in 1..x : c[j] = IF c[x + 1] >= 128 THEN 255 ELSE 0

(* What the reader for kind k must do with item it: [st, nan, v].  "bad" is *)
(* what it must refuse: it is no value, or one that the call cannot return. *)
Expect(k, c) ==
    CASE k = "bool" -> IF Len(c) = 1 THEN [st |-> "ok", nan |-> FALSE, v |-> <<IF c[1] = 0 THEN 0 ELSE 1>>]
                       ELSE [st |-> "bad", nan |-> FALSE, v |-> <<>>]
      [] k = "int"  -> IF Len(c) \in 1..4 THEN [st |-> "ok", nan |-> FALSE, v |-> Int8(c)]
                       ELSE IF c = <<>> \/ ~Fits(c, 4) THEN [st |-> "bad", nan |-> FALSE, v |-> <<>>]
                       ELSE [st |-> "other", nan |-> FALSE, v |-> <<>>]
      [] k = "int64" -> IF Len(c) \in 1..8 THEN [st |-> "ok", nan |-> FALSE, v |-> Int8(c)]
                       ELSE IF c = <<>> \/ ~Fits(c, 8) THEN [st |-> "bad", nan |-> FALSE, v |-> <<>>]
                       ELSE [st |-> "other", nan |-> FALSE, v |-> <<>>]
      [] k = "real" -> Real(c)
      [] k = "oid"  -> LET o == Oid(c) IN
                       [st |-> IF o.st # "ok" THEN "bad" ELSE "ok", nan |-> FALSE, v |-> o.v]
      [] OTHER -> [st |-> "ok", nan |-> FALSE, v |-> c]

(* Like Parse, but the value is primitive whatever its tag says. *)
Value(b) ==
    IF b = <<>> THEN [Item0 EXCEPT !.st = "trunc"]
    ELSE LET l == LenAt(b, 2, Len(b)) IN
         IF l.st # "ok" THEN [Item0 EXCEPT !.st = l.st, !.t = b[1]]
         ELSE IF l.n = -1 THEN [Item0 EXCEPT !.st = "other", !.t = b[1]]
         ELSE IF l.n > Len(b) - l.next + 1 THEN [Item0 EXCEPT !.st = "trunc", !.t = b[1]]
         ELSE [st |-> "ok", t |-> b[1], c |-> SubSeq(b, l.next, l.next + l.n - 1), k |-> <<>>,
               next |-> l.next + l.n]

=============================================================================
