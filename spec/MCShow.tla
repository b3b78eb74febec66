------------------------------- MODULE MCShow -------------------------------
(***************************************************************************)
(* Trees and their texts: every field with values of every type it may     *)
(* have, all but one, pairs, and elements besides and below each other.    *)
(* The text says what is held (Readable) and different values have         *)
(* different texts (ASSUME).  Ways to write a text that lose something     *)
(* must be noticed by the reader (Found).                                  *)
(***************************************************************************)
EXTENDS Show, Json, IOUtils

Deep == IOEnv.TIER = "thorough"

Ints == { SmallInt8(n) : n \in {0, 1, -1, 9, 10, 255, 256, -256, 65535, 1000000, -2147483647} }
        \cup { <<127, 255, 255, 255, 255, 255, 255, 255>>, <<128, 0, 0, 0, 0, 0, 0, 0>>, <<255, 0, 0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 1, 0, 0, 0, 0>> }
Reals == { <<0, 0, 0, 0, 0, 0, 0, 0>>, <<63, 240, 0, 0, 0, 0, 0, 0>>, <<191, 224, 0, 0, 0, 0, 0, 0>>, <<64, 9, 0, 0, 0, 0, 0, 0>>,
           <<63, 144, 0, 0, 0, 0, 0, 0>>, <<192, 94, 221, 0, 0, 0, 0, 0>>, <<64, 159, 255, 112, 0, 0, 0, 0>> }
Strings == { Chars("x"), Chars("Gain (dB)"), Chars("a: b"), Chars("{"), Chars("}"), Chars("[1, 2]"), Chars("nil"), Chars("%s%d"), <<195, 169>> }
Buffers == { <<0>>, <<1, 16>>, <<17, 0>>, <<255, 10, 160>> }
Oids == { <<1>>, <<1, 2, 300>>, <<0, 0>> }

Vals(ty) == { [t |-> x[1], v |-> x[2]] : x \in
    CASE ty = "int" -> {"int"} \X Ints
      [] ty = "real" -> {"real"} \X Reals
      [] ty = "str" -> {"str"} \X Strings
      [] ty = "bool" -> {"bool"} \X { <<0>>, <<1>> }
      [] ty = "buf" -> {"buf"} \X Buffers
      [] ty = "oid" -> {"oid"} \X Oids
      [] OTHER -> {} }

ASSUME \A ty \in {"int", "real", "str", "bool", "buf", "oid"} :
    \A x, y \in Vals(ty) : ValueText(x.t, x.v) = ValueText(y.t, y.v) => x = y
(* the digits of each byte without zeros in front say less *)
Unpadded(bs) == Flat(bs, LAMBDA b : IF b < 16 THEN <<HexDigit(b)>> ELSE <<HexDigit(b \div 16), HexDigit(b % 16)>>)
ASSUME \E x, y \in Buffers : x # y /\ Unpadded(x) = Unpadded(y)
ASSUME RealText(<<192, 94, 221, 0, 0, 0, 0, 0>>) = Chars("-123.453125")
ASSUME IntText(<<128, 0, 0, 0, 0, 0, 0, 0>>) = Chars("-9223372036854775808")

ShownFields(k) == (DOMAIN FieldTypes(k)) \ (IF k = "param" THEN {5, 13} ELSE {})
Limit(k, n, vs) == \* the matrix has enumerations
    IF k = "matrix" /\ n = 2 THEN { x \in vs : Small(x.v) \in 0..1 } \cup { [t |-> "int", v |-> SmallInt8(2)] }
    ELSE IF k = "matrix" /\ n = 3 THEN { x \in vs : Small(x.v) \in 0..1 }
    ELSE vs
FieldVals(k, n) == { [k |-> n, t |-> x.t, v |-> x.v] : x \in Limit(k, n, UNION { Vals(ty) : ty \in FieldTypes(k)[n] }) }
Kinds == {"node", "param", "matrix", "func"}
Table == [k \in Kinds |-> [n \in ShownFields(k) |-> SetToSeq(FieldVals(k, n))]]
FieldSet(k) == { n \in ShownFields(k) : Table[k][n] # <<>> }
One1(k, n, i) == LET s == Table[k][n] IN s[1 + (i % Len(s))]
El(k, q, p, fs) == [El0 EXCEPT !.k = k, !.q = q, !.p = p, !.has = TRUE, !.f = fs]
Fs(k, ns, i) == LET s == SetToSortSeq(ns, <) IN [j \in 1..Len(s) |-> One1(k, s[j], i)]

Singles == UNION { UNION { { <<El(k, FALSE, <<7>>, <<f>>)>> : f \in SeqToSet(Table[k][n]) } : n \in FieldSet(k) } : k \in Kinds }
Mostly == UNION { { <<El(k, TRUE, <<3>>, Fs(k, FieldSet(k) \ {n}, i))>> : n \in FieldSet(k) \cup {99}, i \in 0..(IF Deep THEN 9 ELSE 3) } : k \in Kinds }
Pairs == UNION { { <<El(k, FALSE, <<1>>, Fs(k, {m, n}, i))>> : m, n \in FieldSet(k), i \in 0..(IF Deep THEN 5 ELSE 0) } : k \in Kinds }
Bare(k, p) == [El0 EXCEPT !.k = k, !.p = p]
With(e, ch) == [e EXCEPT !.ch = ch]
Shapes == { <<>> }
    \cup { <<Bare(k, <<1>>), Bare(l, <<200>>)>> : k, l \in Kinds }
    \cup { <<With(Bare("node", <<1>>), <<El(k, FALSE, <<1>>, Fs(k, FieldSet(k), i)), El(l, FALSE, <<2>>, Fs(l, {0}, i))>>), Bare(l, <<2>>)>> : k, l \in Kinds, i \in {0, 1} }
    \cup { <<With(El("node", FALSE, <<5>>, Fs("node", {0, 2}, 1)), <<With(Bare("node", <<6>>), <<El(k, FALSE, <<1>>, Fs(k, FieldSet(k), 2))>>)>>)>> : k \in Kinds }
    \cup { <<With(Bare("node", <<5>>), <<Bare("node", <<6>>)>>), El(k, TRUE, <<5, 6, 7>>, Fs(k, {1}, 1))>> : k \in Kinds }

Flaws == << "last", "no value", "no end" >>

VARIABLE c
Init == /\ \A n \in 1..3 : TLCSet(10 + n, FALSE)
        /\ c \in Singles \cup Mostly \cup Pairs \cup Shapes
Next == FALSE /\ c' = c
Spec == Init /\ [][Next]_c

Tree == Apply(NoTree, c).t
Readable == /\ AllShowable(Tree)
            /\ LET s == Shown(Tree) IN
               /\ ReadText(TextOf("plain", s)) = [ok |-> TRUE, els |-> s]
               /\ (Len(c) = 1 /\ c[1].ch = <<>> /\ Len(c[1].f) \in 1..2) => \A n \in 1..3 : ReadText(TextOf(Flaws[n], s)) # [ok |-> TRUE, els |-> s] => TLCSet(10 + n, TRUE)

Found == \A n \in 1..3 : Assert(TLCGet(10 + n), "a flaw is not noticed: " \o Flaws[n])

Emit == PrintT("CASE " \o ToJson(<< [do |-> "msg", els |-> c], [do |-> "show"] >>))
=============================================================================
