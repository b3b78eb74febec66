------------------------------- MODULE Content -------------------------------
(***************************************************************************)
(* Contents and content values as objects with fields.  An object is       *)
(*    k   the kind of contents, or "cp" for a value on its own             *)
(*    f   its fields, a map from context numbers to [t, v]                 *)
(* A value on its own has the one field 0.                                 *)
(***************************************************************************)
EXTENDS Glow

NoFields == [x \in {} |-> 0]
Unset == [t |-> "unset", v |-> <<>>]

At(o, s) == IF s.k \in DOMAIN o[s.o].f THEN o[s.o].f[s.k] ELSE Unset

(* A slot s is a field k of an object o. *)
SetAt(o, s, x) == [o EXCEPT ![s.o].f = (s.k :> x) @@ @]

(* Copying from one slot to another: [o, refused] *)
CopyTo(o, from, to) ==
    LET x == At(o, from)
        y == At(o, to) IN
    IF x = Unset \/ (y # Unset /\ x.t # y.t)
    THEN [o |-> o, refused |-> y # Unset]
    ELSE [o |-> SetAt(o, to, x), refused |-> FALSE]

Fields(ob) == [j \in 1..Cardinality(DOMAIN ob.f) |->
    LET n == SetToSortSeq(DOMAIN ob.f, <)[j] IN [k |-> n, t |-> ob.f[n].t, v |-> ob.f[n].v]]

(* What the getters of an object return *)
Seen(ob) == IF ob.k = "cp" THEN Fields(ob) ELSE Got(ob.k, NormFields(Fields(ob)))
=============================================================================
