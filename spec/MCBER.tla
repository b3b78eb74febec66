------------------------------- MODULE MCBER -------------------------------
(***************************************************************************)
(* C01 - C04: the encodings of BER.tla on enumerated values and contents.  *)
(* The invariants say that the specification itself is coherent (what is   *)
(* written is read back, is the shortest, other forms mean the same), and  *)
(* each case is printed for the driver to run in the real code.            *)
(***************************************************************************)
EXTENDS BER, Json, IOUtils

Prop == IOEnv.PROP

(* byte strings of length n over the alphabet a *)
Strs(a, n) == [1..n -> a]

Edge == {0, 1, 127, 128, 255}
Edge3 == {0, 127, 128}

W(k, v, tag) == [op |-> "w", k |-> k, v |-> v, tag |-> tag]
R(k, tag, in) == [op |-> "r", k |-> k, tag |-> tag, in |-> in]

ShortForms == 0..4

C01Cases ==
    { W("int64", Int8(c), 2) : c \in UNION {Strs(Edge, n) : n \in 1..4} }
    \cup { W("int", Int8(c), 2) : c \in UNION {Strs(Edge, n) : n \in 1..4} }
    \cup { W("enum", Int8(c), 10) : c \in UNION {Strs(Edge, n) : n \in 1..3} }
    \cup { W("int64", Int8(c), 2) : c \in {<<a, b>> \o Rep(x, n) \o <<y>> : a \in Edge, b \in Edge, x \in Edge3, y \in Edge3, n \in 2..5} }
    \cup { W("inttag", Int8(c), t) : c \in Strs(Edge, 2), t \in {1, 2, 10, 64, 128, 255} }
    \cup { W("int64tag", Int8(c), t) : c \in Strs(Edge, 2), t \in {1, 2, 10, 64, 128, 255} }
    \cup { W("bool", <<b>>, 1) : b \in {0, 1} }
    \cup { W("null", <<>>, 5) }
    \cup { R(k, 2, <<2>> \o LenForm(Len(c), f) \o c \o tail) :
           k \in {"int", "int64"}, c \in UNION {Strs(Edge, n) : n \in 1..3}, f \in {0, 1, 4}, tail \in {<<>>, <<0>>, <<2, 1>>} }
    \cup { R("int64", 2, <<2>> \o LenForm(Len(c), 0) \o c) :
           c \in {<<a, b>> \o Rep(x, n) \o <<y>> : a \in Edge, b \in Edge, x \in Edge3, y \in Edge3, n \in 1..5} }
    \cup { R(k, 2, <<t, 1, c>>) : k \in {"int", "int64", "bool"}, t \in 0..255, c \in {0, 255} }
    \cup { R("bool", 1, <<1>> \o LenForm(1, f) \o <<c>> \o tail) : c \in 0..255, f \in ShortForms, tail \in {<<>>, <<1>>} }
    \cup { R(k, 2, <<2, n + 2>> \o <<a>> \o Rep(x, n) \o <<y>>) : k \in {"int", "int64"}, a \in Edge, x \in Edge, y \in Edge3, n \in 2..9 }
    \cup { R(k, 2, <<2, 4 + n>> \o Rep(a, n) \o <<x, 0, 255, y>>) : k \in {"int", "int64"}, a \in {0, 255}, x \in Edge, y \in Edge3, n \in 1..6 }
    \cup { R(k, 2, <<t, n>> \o Rep(255, m)) : k \in {"int", "int64", "bool"}, t \in {1, 2}, n \in 0..9, m \in 0..9 }

RealExps == {-1023, -1022, -256, -255, -129, -128, -127, -1, 0, 1, 126, 127, 128, 255, 256, 1022, 1023}
Fracs == {<<>>, <<1>>, <<0, 1>>, <<1, 1, 1, 1, 1, 1, 1>>, <<0, 0, 0, 0, 0, 0, 0, 1>>, Rep(1, 52), Rep(0, 51) \o <<1>>,
          Rep(1, 51), Rep(0, 30) \o <<1>>, <<1>> \o Rep(0, 40) \o <<1>>}
Float(sign, x, f) == Bytes(<<sign>> \o BitsOf(x + 1023, 11) \o f \o Rep(0, 52 - Len(f)))
Exp8(x) == SmallInt8(x)
(* mantissa bits 1.f in whole bytes, with z zero bits behind *)
Mant(f, z) == LET m == <<1>> \o f \o Rep(0, z) IN
    Bytes(Rep(0, (8 - (Len(m) % 8)) % 8) \o m)
RealContent(sign, x, xl, f, z) ==
    <<128 + 64 * sign + xl - 1>> \o SubSeq(Exp8(x), 9 - xl, 8) \o Mant(f, z)
RealCases == { [s |-> sg, x |-> x, f |-> f] : sg \in {0, 1}, x \in RealExps, f \in Fracs }

C02Cases ==
    { W("real", Float(r.s, r.x, r.f), 9) : r \in RealCases }
    \cup { W("real", v, 9) : v \in {RZero, RInf, RNegInf, <<128, 0, 0, 0, 0, 0, 0, 0>>, <<127, 248, 0, 0, 0, 0, 0, 1>>} }
    \cup { R("real", 9, LET c == RealContent(r.s, r.x, xl, r.f, z) IN <<9, Len(c)>> \o c) :
           r \in RealCases, xl \in {2, 3}, z \in {0, 1} }
    \cup { R("real", 9, LET c == RealContent(r.s, r.x, 1, r.f, 0) IN <<9, Len(c)>> \o c \o <<1, 2>>) :
           r \in { q \in RealCases : q.x \in -128..127 } }
    \cup { R("real", 9, LET c == RealContent(sg, x, xl, f, 0) IN <<9, Len(c)>> \o c) :
           sg \in {0, 1}, xl \in {2, 3}, f \in {<<>>, <<1>>, <<0, 1>>},
           x \in {-32768, -5000, -2048, -2047, -1100, -1074, -1073, -1025, -1024, 1024, 1025, 1074, 2046, 2047, 2048, 2049, 3071, 4096, 32767} }
    \cup { R("real", 9, <<9>> \o LenForm(Len(c), f) \o c \o <<9>>) : c \in {<<>>, <<64>>, <<65>>, <<66>>}, f \in ShortForms }
    \cup { R("real", 9, <<t, 1, 64>>) : t \in 0..255 }

Lens == {0, 1, 2, 126, 127, 128, 129, 254, 255, 256, 257}
C03Cases ==
    { W(k, [j \in 1..n |-> (j * m + a) % 256], t) : k \in {"buf"}, n \in Lens, m \in {0, 7}, a \in {0, 128, 255}, t \in {3, 4, 12, 130} }
    \cup { W("str", [j \in 1..n |-> (j * m + a) % 256], 12) : n \in Lens, m \in {0, 7}, a \in {0, 128, 255} }
    \cup { R(k, 0, <<IF k = "str" THEN 12 ELSE 3>> \o LenForm(n, f) \o [j \in 1..n |-> (j * 3 + f) % 256] \o tail) :
           k \in {"str", "bits"}, n \in {0, 1, 2, 126, 127}, f \in ShortForms, tail \in {<<>>, <<0, 0>>, <<12, 200>>} }
    \cup { R(k, 0, <<IF k = "str" THEN 12 ELSE 3>> \o LenForm(n, f) \o [j \in 1..n |-> (j * 3 + f) % 256] \o tail) :
           k \in {"str", "bits"}, n \in {128, 255}, f \in 1..4, tail \in {<<>>, <<0, 0>>} }
    \cup { R(k, 0, <<IF k = "str" THEN 12 ELSE 3>> \o LenForm(n, f) \o Rep(65, m)) :
           k \in {"str", "bits"}, n \in {1, 5, 127}, f \in ShortForms, m \in {0, 1, 4, 126} }
    \cup { R(k, 0, <<t, 1, 65>>) : k \in {"str", "bits"}, t \in 0..255 }

Comps == {0, 1, 126, 127, 128, 129, 255, 256, 16383, 16384, 2097151, 2097152, 268435455, 268435456, 2147483647}
C04Cases ==
    { W("oid", o, 13) : o \in {<<>>} \cup { <<a>> : a \in Comps } \cup { <<a, b>> : a \in Comps, b \in Comps } }
    \cup { R("oid", t, LET c == OidContent(o) IN <<t>> \o LenForm(Len(c), f) \o c \o <<13, 7>>) :
           t \in {13, 4, 128}, f \in {0, 1, 4}, o \in { <<a, b>> : a \in Comps, b \in Comps } }
    \cup { R("oid", 13, <<13, Len(c)>> \o c) : c \in UNION {Strs({0, 1, 127, 128, 129, 255}, n) : n \in 0..3} }
    \cup { R("oid", 13, <<13, Len(a) + Len(c)>> \o a \o c) : a \in {<<>>, <<1>>, <<129, 0>>},
           c \in {<<135, 255, 255, 255, 127>>, <<136, 128, 128, 128, 0>>, <<136, 128, 128, 128, 0, 2>>, <<143, 255, 255, 255, 127>>, <<144, 128, 128, 128, 1>>,
                  <<255, 255, 255, 255, 127>>, <<192, 128, 128, 128, 128, 5>>, <<129, 128, 128, 128, 128, 128, 128, 128, 128, 7, 3>>,
                  <<128, 128, 128, 128, 128, 1>>, <<128, 144, 128, 128, 128, 1>>} }
    \cup { R("oid", t, <<u, 1, 5>>) : t \in {13, 6}, u \in 0..255 }

Cases == CASE Prop = "C01" -> C01Cases
           [] Prop = "C02" -> C02Cases
           [] Prop = "C03" -> C03Cases
           [] Prop = "C04" -> C04Cases

VARIABLE c
Init == c \in Cases
Next == FALSE /\ c' = c
Spec == Init /\ [][Next]_c

IntsCoherent ==
    c.k \in {"int", "int64", "enum", "inttag", "int64tag"} /\ c.op = "w" =>
        LET s == Shortest(c.v) IN
        /\ Int8(s) = c.v
        /\ Len(s) > 1 => Int8(Tail(s)) # c.v
        /\ FitsInt32(c.v) => \/ ~(ToInt(c.v) \in -16777216..16777215)
                             \/ SmallInt8(ToInt(c.v)) = c.v

RealsCoherent ==
    c.k = "real" /\ c.op = "w" /\ ~RIsZero(c.v) /\ ~RIsNaN(c.v) /\ c.v \notin {RInf, RNegInf} /\ ~(RExp(c.v) = 0 /\ RFrac(c.v) = Rep(0, 52)) =>
        LET x == RExp(c.v) - 1023
            f == DropTrail(RFrac(c.v), 0)
            xl == IF x \in -128..127 THEN 1 ELSE 2
            d == RealContent(RSign(c.v), x, xl, f, 0) IN
        /\ Real(d).st = "ok" /\ Real(d).v = c.v
        /\ RealShortest(d)
        /\ Real(RealContent(RSign(c.v), x, 3, f, 0)).v = c.v

OidsCoherent ==
    c.k = "oid" /\ c.op = "w" =>
        /\ Oid(OidContent(c.v)) = [st |-> "ok", v |-> c.v]
        /\ \A j \in 1..Len(OidContent(c.v)) :   \* no component starts with an empty group
             OidContent(c.v)[j] = 128 => j > 1 /\ OidContent(c.v)[j - 1] >= 128

StringsCoherent ==
    c.k \in {"str", "buf"} /\ c.op = "w" =>
        LET l == LenOctets(Len(c.v))
            p == LenAt(l, 1, Len(l)) IN
        /\ p.st = "ok" /\ p.n = Len(c.v) /\ p.next = Len(l) + 1
        /\ \A k \in 1..4 : LET q == LenForm(Len(c.v), k) IN
             (k > 1 \/ Len(c.v) < 256) => LenAt(q, 1, Len(q)).n = Len(c.v)

Emit == PrintT("CASE " \o ToJson(c))
=============================================================================
