----------------------------- MODULE MCContent -----------------------------
(* All short histories of setting and copying values, on two values of their *)
(* own and two fields of parameter contents. *)
EXTENDS Content, Json, IOUtils

Deep == IOEnv.TIER = "thorough"

Values == { [t |-> "str", v |-> <<97>>], [t |-> "str", v |-> <<>>], [t |-> "int", v |-> SmallInt8(0)], [t |-> "int", v |-> SmallInt8(-7)],
            [t |-> "bool", v |-> <<0>>], [t |-> "buf", v |-> <<>>], [t |-> "buf", v |-> <<0, 255>>],
            [t |-> "oid", v |-> <<1, 300>>], [t |-> "real", v |-> <<63, 248, 0, 0, 0, 0, 0, 0>>] }
Few == { [t |-> "str", v |-> <<98>>], [t |-> "int", v |-> SmallInt8(5)] }

Slots == << [o |-> 1, k |-> 0], [o |-> 2, k |-> 0], [o |-> 3, k |-> 2], [o |-> 3, k |-> 12] >>
Depth == IF Deep THEN 4 ELSE 3

VARIABLES o, hist
vars == <<o, hist>>

Init == o = << [k |-> "cp", f |-> NoFields], [k |-> "cp", f |-> NoFields], [k |-> "param", f |-> NoFields] >> /\ hist = <<>>

Set(j, x) == /\ o' = SetAt(o, Slots[j], x)
             /\ hist' = Append(hist, [do |-> "set", to |-> Slots[j], t |-> x.t, v |-> x.v])
Copy(i, j) == /\ o' = CopyTo(o, Slots[i], Slots[j]).o
              /\ hist' = Append(hist, [do |-> "copy", from |-> Slots[i], to |-> Slots[j]])
Next == Len(hist) < Depth /\
        \/ \E x \in Values : Set(1, x) \/ Set(3, x)
        \/ \E x \in Few : Set(2, x) \/ Set(4, x)
        \/ \E i, j \in 1..4 : Copy(i, j)
Spec == Init /\ [][Next]_vars
View == o

(* A step changes at most one slot, and a copy never changes a type. *)
OneAtATime == [][ Cardinality({ j \in 1..4 : At(o, Slots[j]) # At(o', Slots[j]) }) <= 1 ]_vars
CopyKeepsType == [][ (hist' # hist /\ hist'[Len(hist')].do = "copy") =>
    \A j \in 1..4 : At(o, Slots[j]) # Unset => At(o', Slots[j]).t = At(o, Slots[j]).t ]_vars
CopyIsSame == [][ (hist' # hist /\ hist'[Len(hist')].do = "copy" /\ o' # o) =>
    At(o', hist'[Len(hist')].to) = At(o, hist'[Len(hist')].from) ]_vars

Emit == PrintT("CASE " \o ToJson(hist'))
=============================================================================
