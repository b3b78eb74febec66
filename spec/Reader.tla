------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* C05: the readers of one message.  The outermost reader sees all of the  *)
(* data; reading the start of a sequence of definite length opens a reader *)
(* on exactly its content and moves the reader it was read from behind it; *)
(* a sequence of indefinite length is read on with the same reader.        *)
(*                                                                         *)
(* A reader is [from, to, pos, ind, lost, dead]: the window from..to of    *)
(* the data, the position of the next byte, the number of sequences of     *)
(* indefinite length it is inside of, and lost once nothing is claimed     *)
(* about its position any more (after an error, say).  loose: the reader   *)
(* of an empty sequence of indefinite length, whose position is either     *)
(* side of the end marker.                                                 *)
(***************************************************************************)
EXTENDS BER

NewR(from, to) == [from |-> from, to |-> to, pos |-> from, ind |-> 0, lost |-> FALSE, loose |-> FALSE]

RInit(data) == [lost |-> FALSE, data |-> data, rd |-> <<NewR(1, Len(data))>>]

Left(x) == x.to - x.pos + 1

(* The outcome of a call: next state, what (ok, err, free) and the result. *)
Out(st, what, val) == [st |-> st, what |-> what, val |-> val]

SetR(st, r, x) == [st EXCEPT !.rd[r] = x]
LoseR(st, r) == [st EXCEPT !.rd[r].lost = TRUE]

Open(st, x) == [st EXCEPT !.rd = Append(@, x)]

ReadStart(st, r, tag) ==
    LET x == st.rd[r]
        b == st.data
        id == Len(st.rd) + 1 IN
    IF Left(x) = 0 THEN Out(st, "err", <<>>)
    ELSE IF b[x.pos] # tag THEN Out(LoseR(st, r), "err", <<>>)
    ELSE LET l == LenAt(b, x.pos + 1, x.to) IN
         IF l.st = "trunc" THEN Out(LoseR(st, r), "err", <<>>)
         ELSE IF l.st = "other" THEN Out(LoseR(st, r), "free", <<>>)
         ELSE IF l.n = -1 THEN
              IF x.to > l.next /\ b[l.next] = 0 /\ b[l.next + 1] = 0
              THEN Out(Open(SetR(st, r, [x EXCEPT !.pos = l.next + 2]),
                            [NewR(l.next + 2, l.next + 1) EXCEPT !.loose = TRUE]), "ok", <<0, id>>)
              ELSE Out(SetR(st, r, [x EXCEPT !.pos = l.next, !.ind = @ + 1]), "ok", <<-1, r>>)
         ELSE IF l.n > x.to - l.next + 1
              \* cut short: see C07 for readers at the very beginning
              THEN Out(LoseR(st, r), IF x.from = 1 THEN "free" ELSE "err", <<>>)
         ELSE Out(Open(SetR(st, r, [x EXCEPT !.pos = l.next + l.n]), NewR(l.next, l.next + l.n - 1)),
                  "ok", <<l.n, id>>)

(* NewReader: the next n bytes *)
Part(st, r, n) ==
    LET x == st.rd[r]
        m == IF n < 0 THEN 0 ELSE n IN
    IF m > Left(x) THEN Out(LoseR(st, r), IF x.from = 1 THEN "free" ELSE "err", <<>>)
    ELSE Out(Open(SetR(st, r, [x EXCEPT !.pos = @ + m]), NewR(x.pos, x.pos + m - 1)), "ok", <<Len(st.rd) + 1>>)

AtMarker(st, x) == Left(x) >= 2 /\ st.data[x.pos] = 0 /\ st.data[x.pos + 1] = 0

(* CheckSequenceEnd *)
CheckEnd(st, r) ==
    LET x == st.rd[r] IN
    IF Left(x) = 0 THEN IF x.ind = 0 THEN Out(st, "ok", <<1>>) ELSE Out(LoseR(st, r), "free", <<>>)
    ELSE IF AtMarker(st, x) THEN
         IF x.ind = 0 THEN Out(LoseR(st, r), "free", <<>>)
         ELSE Out(SetR(st, r, [x EXCEPT !.pos = @ + 2, !.ind = @ - 1]), "ok", <<1>>)
    ELSE IF Left(x) = 1 /\ st.data[x.pos] = 0 THEN Out(LoseR(st, r), "free", <<>>)
    ELSE Out(st, "ok", <<0>>)

(* ReadSequenceEnd *)
ReadEnd(st, r) ==
    LET o == CheckEnd(st, r) IN
    IF o.what # "ok" THEN o
    ELSE IF o.val = <<1>> THEN Out(o.st, "ok", <<>>)
    ELSE Out(st, "err", <<>>)

PeekByte(st, r) ==
    LET x == st.rd[r] IN
    IF Left(x) = 0 THEN Out(st, "err", <<>>) ELSE Out(st, "ok", <<st.data[x.pos]>>)

TakeByte(st, r) ==
    LET x == st.rd[r] IN
    IF Left(x) = 0 THEN Out(st, "err", <<>>)
    ELSE Out(SetR(st, r, [x EXCEPT !.pos = @ + 1]), "ok", <<st.data[x.pos]>>)

KindTag(k, tag) == CASE k \in {"int", "int64"} -> TagInteger
                     [] k = "bool" -> TagBoolean
                     [] k = "real" -> TagReal
                     [] k = "str" -> TagUTF8
                     [] k = "bits" -> TagBitString
                     [] OTHER -> tag

(* Reading a primitive value: what the reader has left is all it can see. *)
ReadValue(st, r, k, tag) ==
    LET x == st.rd[r]
        it == Value(SubSeq(st.data, x.pos, x.to)) IN
    IF Left(x) = 0 \/ it.t # KindTag(k, tag) THEN Out(LoseR(st, r), "err", <<>>)
    ELSE IF it.st = "trunc" THEN Out(LoseR(st, r), "err", <<>>)
    ELSE IF it.st = "other" THEN Out(LoseR(st, r), "free", <<>>)
    ELSE LET v == Expect(k, it.c) IN
         IF v.st = "bad" THEN Out(LoseR(st, r), "err", <<>>)
         ELSE IF v.st = "other" \/ v.nan THEN Out(LoseR(st, r), "free", <<>>)
         ELSE Out(SetR(st, r, [x EXCEPT !.pos = @ + it.next - 1]), "ok", v.v)

RCall(st, c) ==
    CASE c.call = "start" -> ReadStart(st, c.r, c.arg)
      [] c.call = "part" -> Part(st, c.r, c.arg)
      [] c.call = "check" -> CheckEnd(st, c.r)
      [] c.call = "end" -> ReadEnd(st, c.r)
      [] c.call = "peek" -> PeekByte(st, c.r)
      [] c.call = "byte" -> TakeByte(st, c.r)
      [] OTHER -> ReadValue(st, c.r, c.call, c.arg)

(* What can be seen of a reader: Len, Offset, TopOffset *)
Seen(x, o) ==
    x.lost \/ /\ o.len = Left(x)
              /\ o.off = x.pos - x.from
              /\ o.top = x.pos - 1 \/ (x.loose /\ o.top = x.pos - 3)

-----------------------------------------------------------------------------
(* What makes it a confinement: at any time every byte of the message is   *)
(* either read or left to exactly one reader.                              *)
Rest(x) == IF x.lost THEN {} ELSE x.pos..x.to

Disjoint(st) == \A i, j \in 1..Len(st.rd) : i # j => Rest(st.rd[i]) \cap Rest(st.rd[j]) = {}

Inside(st) == \A i \in 1..Len(st.rd) : LET x == st.rd[i] IN
    /\ x.from >= 1 /\ x.to <= Len(st.data) /\ x.pos >= x.from /\ x.pos <= x.to + 1
=============================================================================
