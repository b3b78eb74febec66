------------------------------- MODULE Writer -------------------------------
(***************************************************************************)
(* C35: a writer.  What has been written is a forest: sequences that were  *)
(* started and not yet ended (open, outermost first) and what is complete  *)
(* (items).  The bytes that it gives, in whatever pieces they are taken,   *)
(* are one encoding of that forest once everything that was started has    *)
(* ended; which form the lengths have is free.                             *)
(*                                                                         *)
(* An item is [seq, t, k, v, in]: whether it is a sequence, its tag, the   *)
(* kind and value of a value (as in TraceBER), the items in it.            *)
(***************************************************************************)
EXTENDS BER

WTag(e) == CASE e.k \in {"int", "int64"} -> TagInteger
             [] e.k = "enum" -> TagEnum
             [] e.k = "bool" -> TagBoolean
             [] e.k = "null" -> TagNull
             [] e.k = "real" -> TagReal
             [] e.k = "str" -> TagUTF8
             [] e.k = "oid" -> TagRelOID
             [] OTHER -> e.tag

RealWritten(v, c) ==
    IF RIsZero(v) THEN c = <<>>
    ELSE IF v = RInf THEN c = <<64>>
    ELSE IF v = RNegInf THEN c = <<65>>
    ELSE IF RIsNaN(v) THEN c = <<66>>
    ELSE LET r == Real(c) IN
         /\ Len(c) > 1
         /\ r.st = "ok" /\ ~r.nan /\ r.v = v
         /\ c[1] = 128 + 64 * RSign(v) + (c[1] % 4)
         /\ RealShortest(c)

(* c is content that says the value v of kind k *)
Says(k, v, c) ==
    CASE k \in {"int", "int64", "enum", "inttag", "int64tag"} -> c = Shortest(v)
      [] k = "bool" -> Len(c) = 1 /\ ((v = <<0>>) <=> (c = <<0>>))
      [] k = "null" -> c = <<>>
      [] k = "oid" -> c = OidContent(v)
      [] k = "real" -> RealWritten(v, c)
      [] OTHER -> c = v

WInit == [open |-> <<>>, items |-> <<>>]
Holds(w, x) == IF w.open = <<>> THEN [w EXCEPT !.items = Append(@, x)]
               ELSE [w EXCEPT !.open[Len(w.open)].in = Append(@, x)]
WSeq(t) == [seq |-> TRUE, t |-> t, k |-> "", v |-> <<>>, in |-> <<>>]
WVal(e) == [seq |-> FALSE, t |-> WTag(e), k |-> e.k, v |-> e.v, in |-> <<>>]

WStart(w, t) == [w EXCEPT !.open = Append(@, WSeq(t))]
WEnd(w) == Holds([w EXCEPT !.open = SubSeq(@, 1, Len(@) - 1)], w.open[Len(w.open)])
WValue(w, e) == Holds(w, WVal(e))

(* The items that were read, out of the bytes, are those that were written. *)
RECURSIVE AreThose(_, _)
AreThose(got, xs) ==
    /\ Len(got) = Len(xs)
    /\ \A j \in 1..Len(xs) :
          /\ got[j].t = xs[j].t
          /\ IF xs[j].seq THEN AreThose(got[j].k, xs[j].in) ELSE Says(xs[j].k, xs[j].v, got[j].c)

Tells(out, xs) == LET r == ItemsAt(out, 1, Len(out), FALSE, <<>>) IN r.st = "ok" /\ AreThose(r.k, xs)
=============================================================================
