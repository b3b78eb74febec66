------------------------------- MODULE MCGlow -------------------------------
(***************************************************************************)
(* C06, C07, C09 - C12: messages in every combination of length forms and  *)
(* orders.  Invariants: whatever the forms and the order, the bytes mean   *)
(* the message (Coherent), and no proper prefix means anything (Cuts).     *)
(* Each case is printed for the driver.                                    *)
(***************************************************************************)
EXTENDS Glow, Json, IOUtils

Prop == IOEnv.PROP

El(k, q, p, has, f, ch) == [El0 EXCEPT !.k = k, !.q = q, !.p = p, !.has = has, !.f = f, !.ch = ch]
Mat(e, tg, sr, cn) == [e EXCEPT !.tg = tg, !.sr = sr, !.cn = cn]

I(n) == SmallInt8(n)
Half == <<63, 224, 0, 0, 0, 0, 0, 0>>
Third == <<63, 213, 85, 85, 85, 85, 85, 85>>

Fd(k, t, v) == [k |-> k, t |-> t, v |-> v]

(* One or more values for every field of every kind *)
FieldsOf(kind) ==
    CASE kind = "node" -> <<Fd(0, "str", <<97>>), Fd(1, "str", <<>>), Fd(2, "bool", <<1>>), Fd(3, "bool", <<0>>),
                            Fd(4, "str", <<255, 0>>), Fd(5, "oid", <<1, 128, 0>>)>>
      [] kind = "param" -> <<Fd(0, "str", <<97>>), Fd(1, "str", <<98, 99>>), Fd(2, "int", I(-129)), Fd(2, "real", Half), Fd(2, "str", <<>>),
                             Fd(2, "bool", <<1>>), Fd(2, "buf", <<0, 0>>), Fd(3, "int", I(0)), Fd(3, "real", RNegInf), Fd(4, "int", I(32768)),
                             Fd(4, "real", Third), Fd(5, "int", I(3)), Fd(6, "str", <<37>>), Fd(7, "str", <<10>>), Fd(8, "int", I(-1)),
                             Fd(9, "bool", <<1>>), Fd(10, "str", <<120>>), Fd(11, "int", I(1)), Fd(12, "int", I(7)), Fd(12, "str", <<0>>),
                             Fd(12, "bool", <<0>>), Fd(12, "real", RZero), Fd(12, "buf", <<>>), Fd(13, "int", I(1)), Fd(14, "int", I(255)),
                             Fd(17, "str", <<115>>), Fd(18, "oid", <<0>>)>>
      [] kind = "matrix" -> <<Fd(0, "str", <<97>>), Fd(1, "str", <<>>), Fd(2, "int", I(2)), Fd(3, "int", I(1)), Fd(4, "int", I(0)),
                              Fd(5, "int", I(128)), Fd(6, "int", I(300)), Fd(7, "int", I(1)), Fd(8, "oid", <<1, 2>>), Fd(8, "int", I(4)),
                              Fd(9, "int", I(-1)), Fd(10, "labels", <<1, 5, 1, 97>>), Fd(10, "labels", <<0, 0, 2, 1, 200, 2, 0, 0>>),
                              Fd(11, "str", <<115>>), Fd(12, "oid", <<3, 4>>)>>
      [] kind = "func" -> <<Fd(0, "str", <<97>>), Fd(1, "str", <<>>), Fd(2, "tuples", <<1, 1, 97>>), Fd(2, "tuples", <<0, 0, 7, 2, 0, 0>>),
                            Fd(3, "tuples", <<3, 0>>), Fd(3, "tuples", <<2, 1, 98, 2, 1, 98, 4, 0>>)>>
      [] kind = "cmd" -> <<Fd(0, "int", I(-1)), Fd(0, "int", I(5))>>

(* Values that the setters can set: access and type are strings there *)
Settable(kind, f) ==
    IF kind = "param" /\ f.k \in {5, 13} THEN [f EXCEPT !.t = "str", !.v = <<97>>] ELSE f
SetFields(kind) == [j \in 1..Len(FieldsOf(kind)) |-> Settable(kind, FieldsOf(kind)[j])]

RECURSIVE FirstOfEach(_)
FirstOfEach(fs) == IF fs = <<>> THEN <<>>
    ELSE <<fs[1]>> \o FirstOfEach(SelectSeq(Tail(fs), LAMBDA x : x.k # fs[1].k))
LastOfEach(fs) == ByNumber(FirstOfEach(Ordered(TRUE, fs)), FK)

Sets(kind, fs) ==
    { <<fs[j]>> : j \in 1..Len(fs) }
    \cup (IF kind = "cmd" THEN {}
          ELSE {<<>>, FirstOfEach(fs), LastOfEach(fs)}
               \cup { p \in { <<fs[j], fs[l]>> : j, l \in 1..Len(fs) } : p[1].k < p[2].k })

KindsQ == {"node", "param", "matrix", "func"}
Tags == { <<k, q>> : k \in KindsQ, q \in BOOLEAN } \cup {<<"cmd", FALSE>>}
Path(q) == IF q THEN <<3, 200>> ELSE <<5>>

Sig(e, n) == IF e.k # "matrix" \/ n = 0 THEN e
    ELSE IF n = 1 THEN Mat(e, <<0, 1, 200>>, <<>>, <<>>)
    ELSE IF n = 2 THEN Mat(e, <<>>, <<70000, -1>>, <<>>)
    ELSE IF n = 3 THEN Mat(e, <<>>, <<>>, <<[t |-> 1, s |-> <<>>, o |-> 0, d |-> 0], [t |-> 2, s |-> <<0, 127, 128>>, o |-> 2, d |-> 3]>>)
    ELSE Mat(e, <<1>>, <<2>>, <<[t |-> 1, s |-> <<2>>, o |-> 1, d |-> 1]>>)

Leaf(k, n) == El(k, FALSE, <<n>>, k = "cmd", IF k = "cmd" THEN <<Fd(0, "int", I(-1))>> ELSE <<>>, <<>>)

(* All shapes of up to three elements below one *)
Shapes ==
    LET ks == {"node", "param", "matrix", "func", "cmd"} IN
    { <<>> }
    \cup { <<Leaf(a, 1)>> : a \in ks }
    \cup { <<Leaf(a, 0), Leaf(b, 300)>> : a, b \in ks }
    \cup { <<El(a, FALSE, <<7>>, h, <<>>, <<Leaf(b, 7)>>)>> : a \in ks \ {"cmd"}, b \in ks, h \in BOOLEAN }
    \cup { <<El(a, FALSE, <<2>>, FALSE, <<>>, <<El(b, FALSE, <<1>>, TRUE, <<>>, <<Leaf("cmd", 32)>>)>>), Leaf(b, 3)>> : a, b \in ks \ {"cmd"} }
    \cup { <<El(a, FALSE, <<2>>, TRUE, <<>>, <<Leaf(b, 1), Leaf("param", 2), Leaf("node", 16384)>>)>> : a \in KindsQ, b \in ks }

FormsQ == { <<a, b, c, d>> : a, b, c, d \in {0, 1} }
Forms == FormsQ \cup { <<2>>, <<3>>, <<4>>, <<5>>, <<0, 2>>, <<3, 0>>, <<1, 5, 0>>, <<0, 4, 1, 3, 2>>, <<0, 0, 0, 0, 0, 0, 1>>,
                       <<1, 1, 1, 1, 1, 1, 0>>, <<0, 0, 0, 0, 1, 1, 1, 1, 1>>, <<1, 1, 1, 1, 0, 0, 0, 0, 0>> }
FewForms == {<<0>>, <<1>>, <<0, 1>>, <<1, 0>>, <<3, 1, 0>>}

AllFields(k, fs) == LET a == FirstOfEach(fs) IN IF k = "cmd" THEN <<a[1]>> ELSE a
Filled(k, q, n, fs) == Sig(El(k, q, Path(q), TRUE, AllFields(k, fs), IF k = "cmd" THEN <<>> ELSE <<Leaf("node", 1)>>), n)

Dec(what, F, rev, els) == [op |-> "dec", what |-> what, F |-> F, rev |-> rev, els |-> els]
Enc(what, els) == [op |-> "enc", what |-> what, F |-> <<1>>, rev |-> FALSE, els |-> els]
Cut(what, F, els) == [op |-> "cut", what |-> what, F |-> F, rev |-> FALSE, els |-> els]

EncOf(what, F, e) == IF what = "msg" THEN EncMsg(F, FALSE, <<e>>) ELSE EncEl(F, FALSE, 0, e)

What(q) == IF q THEN "el" ELSE "msg"

C06Cases ==
    { Dec(What(t[2]), F, rev, <<Filled(t[1], t[2], n, FieldsOf(t[1]))>>) : t \in Tags, F \in Forms, rev \in BOOLEAN, n \in {0, 3, 4} }
    \cup { Dec("msg", F, rev, <<El("node", FALSE, <<1>>, FALSE, <<>>, sh)>>) : F \in FewForms, rev \in BOOLEAN, sh \in Shapes }
    \cup { Dec("msg", F, FALSE, sh) : F \in Forms, sh \in {<<>>, <<Leaf("node", 1)>>, <<Leaf("cmd", 32)>>, <<Leaf("node", 1), Leaf("param", 2)>>} }
    \cup { Dec("msg", F, FALSE, <<El("matrix", FALSE, <<1>>, h, <<>>, <<>>)>>) : F \in Forms, h \in BOOLEAN }

C07Els ==
    { Sig(El(t[1], t[2], Path(t[2]), TRUE, f, <<>>), n) : t \in { x \in Tags : x[1] = "node" }, f \in { <<FieldsOf("node")[j]>> : j \in {1, 3, 6} }, n \in {0} }
    \cup { El("param", q, Path(q), TRUE, f, <<>>) : q \in BOOLEAN, f \in { <<FieldsOf("param")[j]>> : j \in {3, 4, 6, 7} } }
    \cup { Sig(El("matrix", q, Path(q), TRUE, f, <<>>), n) : q \in BOOLEAN, f \in { <<FieldsOf("matrix")[j]>> : j \in {3, 12} }, n \in {0, 4} }
    \cup { El("func", q, Path(q), TRUE, f, <<>>) : q \in BOOLEAN, f \in { <<FieldsOf("func")[j]>> : j \in {1, 3} } }
    \cup { El("node", FALSE, <<1>>, FALSE, <<>>, <<Leaf("param", 1), Leaf("node", 2)>>), Leaf("cmd", 32) }

C09Cases ==
    { Enc("msg", <<El(k, q, <<9>>, h, <<>>, sh)>>) : k \in KindsQ, q \in BOOLEAN, h \in BOOLEAN, sh \in Shapes }
    \cup { Enc("msg", sh) : sh \in Shapes }
    \cup { Enc("el", <<Filled(t[1], t[2], n, SetFields(t[1]))>>) : t \in Tags, n \in 0..4 }

FieldEncs(ks) == UNION { { Enc(What(q), <<El(k, q, Path(q), TRUE, fs, <<>>)>>) : q \in (IF k = "cmd" THEN {FALSE} ELSE BOOLEAN), fs \in Sets(k, SetFields(k)) } : k \in ks }
FieldDecs(ks) == UNION { { Dec(What(q), F, rev, <<El(k, q, Path(q), TRUE, fs, <<>>)>>) :
                           q \in (IF k = "cmd" THEN {FALSE} ELSE BOOLEAN), F \in {<<1>>, <<0>>}, rev \in BOOLEAN, fs \in Sets(k, FieldsOf(k)) } : k \in ks }

(* C08: a few messages and items, with one byte replaced, left out or put in *)
HostileBases ==
    { <<What(e.q), EncOf(What(e.q), F, e)>> :
        F \in {<<1>>, <<0>>},
        e \in { El("node", FALSE, <<1>>, TRUE, <<Fd(0, "str", <<97>>), Fd(2, "bool", <<1>>)>>, <<Leaf("cmd", 32)>>),
               El("node", TRUE, <<3, 200>>, TRUE, <<Fd(5, "oid", <<1>>)>>, <<>>),
               El("param", FALSE, <<1>>, TRUE, <<Fd(2, "real", Half), Fd(3, "int", I(-129))>>, <<>>),
               El("param", TRUE, <<1>>, TRUE, <<Fd(2, "buf", <<0, 0>>)>>, <<>>),
               Mat(El("matrix", FALSE, <<5>>, TRUE, <<Fd(2, "int", I(2)), Fd(8, "oid", <<1, 2>>), Fd(10, "labels", <<1, 5, 1, 97>>)>>, <<>>),
                   <<1>>, <<2>>, <<[t |-> 1, s |-> <<2>>, o |-> 1, d |-> 1]>>),
               El("func", FALSE, <<1>>, TRUE, <<Fd(2, "tuples", <<1, 1, 97>>), Fd(3, "tuples", <<3, 0>>)>>, <<>>) } }

Bytewise(b) ==
    LET V == {0, 1, 2, 13, 48, 99, 127, 128, 129, 132, 133, 160, 161, 162, 255} IN
    { [b EXCEPT ![j] = v] : j \in 1..Len(b), v \in V }
    \cup { SubSeq(b, 1, j - 1) \o SubSeq(b, j + 1, Len(b)) : j \in 1..Len(b) }
    \cup { SubSeq(b, 1, j) \o <<v>> \o SubSeq(b, j + 1, Len(b)) : j \in 0..Len(b), v \in {0, 128, 132} }
    \cup { SubSeq(b, 1, j) : j \in 0..Len(b) }
    \cup { SubSeq(b, 1, j) \o <<132, 255, 255, 255, 255>> \o SubSeq(b, j + 2, Len(b)) : j \in 1..(Len(b) - 1) }
    \cup { SubSeq(b, 1, j) \o <<128>> \o SubSeq(b, j + 2, Len(b)) \o <<0, 0>> : j \in 1..(Len(b) - 1) }

C08Cases == UNION { { [op |-> "raw", what |-> h[1], in |-> b] : b \in Bytewise(h[2]) } : h \in HostileBases }

Cases ==
    CASE Prop = "C06" -> C06Cases
      [] Prop = "C08" -> C08Cases
      [] Prop = "C07" -> { Cut(What(e.q), F, <<e>>) : e \in C07Els, F \in {<<1>>, <<3>>, <<0>>, <<0, 1>>, <<1, 0>>, <<0, 0, 1>>} }
      [] Prop = "C09" -> C09Cases
      [] Prop = "C10" -> FieldEncs({"node", "param", "matrix", "func", "cmd"})
                         \cup { x \in FieldDecs({"node", "param", "matrix", "func", "cmd"}) : Len(x.els[1].f) # 2 }
      [] Prop = "C11" -> FieldEncs({"matrix"}) \cup FieldDecs({"matrix"})
                         \cup { Dec(What(q), <<1>>, FALSE, <<El("matrix", q, Path(q), TRUE, <<Fd(k, "int", I(v))>>, <<>>)>>) :
                                 q \in BOOLEAN, k \in {2, 3}, v \in {-32769, -257, -256, -129, -128, -1, 127, 128, 129, 255, 256, 257, 300, 65536, 65537} }
                         \cup { Enc(What(q), <<Filled("matrix", q, n, SetFields("matrix"))>>) : q \in BOOLEAN, n \in 0..4 }
                         \cup { Dec(What(q), F, rev, <<Filled("matrix", q, n, FieldsOf("matrix"))>>) : q \in BOOLEAN, n \in 0..4, F \in FewForms, rev \in BOOLEAN }
      [] Prop = "C12" -> FieldEncs({"func"}) \cup FieldDecs({"func"})

VARIABLE c
Init == c \in Cases
Next == FALSE /\ c' = c
Spec == Init /\ [][Next]_c

BytesOf(x) == IF x.what = "msg" THEN EncMsg(x.F, x.rev, x.els) ELSE EncEl(x.F, x.rev, 0, x.els[1])

RECURSIVE NormEl(_)
NormEl(d) == [d EXCEPT !.f = NormFields(d.f), !.ch = ByNumber([j \in 1..Len(d.ch) |-> NormEl(d.ch[j])], NumOf)]

Meaning(x, b) == IF x.what = "msg" THEN Msg(b)
                 ELSE LET r == Single(b, ElOk, ElOf) IN [r EXCEPT !.v = IF r.st = "ok" THEN <<@>> ELSE @]

Coherent == c.op # "raw" => Meaning(c, BytesOf(c)) = [st |-> "ok", v |-> [j \in 1..Len(c.els) |-> NormEl(c.els[j])]]

Cuts == c.op = "cut" =>
    LET b == BytesOf(c) IN
    \A n \in 0..(Len(b) - 1) :
       LET p == SubSeq(b, 1, n)
           m == Meaning(c, p) IN
       /\ m.st \in {"trunc", "cut", "open"}
       /\ Definite(b) => m.st = "trunc"
       /\ LET x == CutAt(p, 1) IN
          x.miss > 0 => Meaning(c, p \o Rep(0, x.miss)).st \notin {"trunc", "cut"}

Emit == PrintT("CASE " \o ToJson(
    IF c.op = "raw" THEN [op |-> "dec", what |-> c.what, in |-> c.in, d |-> <<>>]
    ELSE IF c.op = "enc" THEN [op |-> "enc", what |-> c.what, in |-> <<>>, d |-> c.els]
    ELSE [op |-> c.op, what |-> c.what, in |-> BytesOf(c), d |-> <<>>]))
=============================================================================
