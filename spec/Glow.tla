-------------------------------- MODULE Glow --------------------------------
(***************************************************************************)
(* The Glow DTD as far as the library supports it: which bytes mean which  *)
(* elements.  An element is a record                                       *)
(*    k    node, param, matrix, func or cmd                                *)
(*    q    whether it is qualified                                         *)
(*    p    its path; <<number>> if it is not qualified                     *)
(*    has  whether it has contents                                         *)
(*    f    the fields of the contents, by context number: [k, t, v]        *)
(*    ch   its children by number                                          *)
(*    tg, sr, cn  targets, sources and connections [t, s, o, d] of a matrix*)
(* Values v are sequences of numbers whatever their type t, so that values *)
(* of different types can be compared:                                     *)
(*    int, real  8 bytes;  bool <<0>> or <<1>>;  str, buf the bytes;       *)
(*    oid the components;  labels and tuples: see FlatLabel and FlatTup. *)
(* Items are those of BER.tla.  Every decoder D comes with DOk, which says *)
(* whether the item is one of the DTD's (and supported).                   *)
(***************************************************************************)
EXTENDS BER

NaN8 == <<127, 248, 0, 0, 0, 0, 0, 1>>

KindOf(tag) == CASE tag \in {97, 105} -> "param"
                 [] tag \in {99, 106} -> "node"
                 [] tag \in {109, 113} -> "matrix"
                 [] tag \in {115, 116} -> "func"
                 [] tag = 98 -> "cmd"
                 [] OTHER -> "none"
IsQTag(tag) == tag \in {105, 106, 113, 116}
TagOf(k, q) == CASE k = "param" -> IF q THEN 105 ELSE 97
                 [] k = "node" -> IF q THEN 106 ELSE 99
                 [] k = "matrix" -> IF q THEN 113 ELSE 109
                 [] k = "func" -> IF q THEN 116 ELSE 115
                 [] k = "cmd" -> 98

(* Context numbers of the fields, and the types the DTD gives them *)
FieldTypes(kind) ==
    LET any == {"int", "real", "str", "bool", "buf"} IN
    CASE kind = "node" -> 0 :> {"str"} @@ 1 :> {"str"} @@ 2 :> {"bool"} @@ 3 :> {"bool"} @@ 4 :> {"str"} @@ 5 :> {"oid"}
      [] kind = "param" ->
         0 :> {"str"} @@ 1 :> {"str"} @@ 2 :> any @@ 3 :> {"int", "real"} @@ 4 :> {"int", "real"} @@ 5 :> {"int"}
         @@ 6 :> {"str"} @@ 7 :> {"str"} @@ 8 :> {"int"} @@ 9 :> {"bool"} @@ 10 :> {"str"} @@ 11 :> {"int"}
         @@ 12 :> any @@ 13 :> {"int"} @@ 14 :> {"int"} @@ 17 :> {"str"} @@ 18 :> {"oid"}
      [] kind = "matrix" ->
         0 :> {"str"} @@ 1 :> {"str"} @@ 2 :> {"int"} @@ 3 :> {"int"} @@ 4 :> {"int"} @@ 5 :> {"int"} @@ 6 :> {"int"}
         @@ 7 :> {"int"} @@ 8 :> {"oid", "int"} @@ 9 :> {"int"} @@ 10 :> {"labels"} @@ 11 :> {"str"} @@ 12 :> {"oid"}
      [] kind = "func" -> 0 :> {"str"} @@ 1 :> {"str"} @@ 2 :> {"tuples"} @@ 3 :> {"tuples"}
      [] kind = "cmd" -> 0 :> {"int"}

-----------------------------------------------------------------------------
(* Values *)

IntOk(it, n) == it.t = TagInteger /\ Len(it.c) \in 1..n
Int32(it) == ToInt(Int8(it.c))
OidOk(it) == it.t = TagRelOID /\ Oid(it.c).st = "ok"
StrOk(it) == it.t = TagUTF8

One(it) == Len(it.k) = 1

ValueOk(it) ==
    CASE it.t = TagBoolean -> Len(it.c) = 1
      [] it.t = TagInteger -> Len(it.c) \in 1..8
      [] it.t = TagReal -> Real(it.c).st = "ok"
      [] it.t = TagRelOID -> OidOk(it)
      [] OTHER -> it.t \in {TagBitString, TagUTF8}

(* [t, v] *)
ValueOf(it) ==
    CASE it.t = TagBoolean -> [t |-> "bool", v |-> <<IF it.c[1] = 0 THEN 0 ELSE 1>>]
      [] it.t = TagInteger -> [t |-> "int", v |-> Int8(it.c)]
      [] it.t = TagReal -> LET r == Real(it.c) IN [t |-> "real", v |-> IF r.nan THEN NaN8 ELSE r.v]
      [] it.t = TagRelOID -> [t |-> "oid", v |-> Oid(it.c).v]
      [] it.t = TagBitString -> [t |-> "buf", v |-> it.c]
      [] it.t = TagUTF8 -> [t |-> "str", v |-> it.c]

(* Labels: App 18, basePath [0], description [1] *)
LabelOk(it) ==
    /\ it.t = Application(18) /\ Len(it.k) = 2
    /\ it.k[1].t = Context(0) /\ One(it.k[1]) /\ OidOk(it.k[1].k[1])
    /\ it.k[2].t = Context(1) /\ One(it.k[2]) /\ StrOk(it.k[2].k[1])
LabelOf(it) == [p |-> Oid(it.k[1].k[1].c).v, d |-> it.k[2].k[1].c]
FlatLabel(l) == <<Len(l.p)>> \o l.p \o <<Len(l.d)>> \o l.d

(* Tuple descriptions: App 21, type [0], name [1] *)
TupOk(it) ==
    /\ it.t = Application(21) /\ Len(it.k) \in 1..2
    /\ \A j \in 1..Len(it.k) : One(it.k[j])
    /\ \A j, l \in 1..Len(it.k) : j # l => it.k[j].t # it.k[l].t
    /\ \E j \in 1..Len(it.k) : it.k[j].t = Context(0)
    /\ \A j \in 1..Len(it.k) :
          \/ it.k[j].t = Context(0) /\ IntOk(it.k[j].k[1], 4) /\ Int32(it.k[j].k[1]) \in 0..255
          \/ it.k[j].t = Context(1) /\ StrOk(it.k[j].k[1])
TupOf(it) ==
    LET F(n) == SelectSeq(it.k, LAMBDA x : x.t = Context(n)) IN
    [t |-> Int32(F(0)[1].k[1]), n |-> IF F(1) = <<>> THEN <<>> ELSE F(1)[1].k[1].c]
FlatTup(t) == <<t.t, Len(t.n)>> \o t.n

(* A SEQUENCE (48) of values, each in [0] *)
ListOk(it, Ok(_)) ==
    /\ it.t = TagSequence
    /\ \A j \in 1..Len(it.k) : it.k[j].t = Context(0) /\ One(it.k[j]) /\ Ok(it.k[j].k[1])
ListOf(it, Of(_)) == [j \in 1..Len(it.k) |-> Of(it.k[j].k[1])]

Flat(s, F(_)) == FoldLeft(LAMBDA acc, x : acc \o F(x), <<>>, s)

-----------------------------------------------------------------------------
(* Contents: SET of fields, each in its context number; INTEGER for commands *)

FieldOk(kind, it) ==
    LET n == it.t - 160 IN
    /\ One(it)
    /\ n \in DOMAIN FieldTypes(kind)
    /\ CASE kind = "matrix" /\ n = 10 -> ListOk(it.k[1], LabelOk)
         [] kind = "func" /\ n \in {2, 3} -> ListOk(it.k[1], TupOk)
         [] (kind = "node" /\ n = 5) \/ (kind = "param" /\ n = 18) \/ (kind = "matrix" /\ n = 12) ->
               OidOk(it.k[1]) /\ it.k[1].c # <<>>
         [] OTHER -> ValueOk(it.k[1])

FieldOf(kind, it) ==
    LET n == it.t - 160 IN
    CASE kind = "matrix" /\ n = 10 -> [k |-> n, t |-> "labels", v |-> Flat(ListOf(it.k[1], LabelOf), FlatLabel)]
      [] kind = "func" /\ n \in {2, 3} -> [k |-> n, t |-> "tuples", v |-> Flat(ListOf(it.k[1], TupOf), FlatTup)]
      [] OTHER -> LET v == ValueOf(it.k[1]) IN [k |-> n, t |-> v.t, v |-> v.v]

ByNumber(fs, N(_)) == SortSeq(fs, LAMBDA a, b : N(a) < N(b))

FK(f) == f.k

(* An empty list of labels or tuples is the same as none. *)
NormFields(fs) == ByNumber(SelectSeq(fs, LAMBDA f : ~(f.t \in {"labels", "tuples"} /\ f.v = <<>>)), FK)

Different(s, N(_)) == \A a, b \in 1..Len(s) : a # b => N(s[a]) # N(s[b])

ItemTag(it) == it.t

ContentsOk(kind, it) ==
    IF kind = "cmd" THEN IntOk(it, 4)
    ELSE /\ it.t = TagSet
         /\ Different(it.k, ItemTag)
         /\ \A j \in 1..Len(it.k) : FieldOk(kind, it.k[j])

ContentsOf(kind, it) ==
    IF kind = "cmd" THEN <<[k |-> 0, t |-> "int", v |-> Int8(it.c)]>>
    ELSE NormFields([j \in 1..Len(it.k) |-> FieldOf(kind, it.k[j])])

-----------------------------------------------------------------------------
(* Targets App 14, sources App 15: number [0] *)
SignalOk(it, tag) == it.t = tag /\ One(it) /\ it.k[1].t = Context(0) /\ One(it.k[1]) /\ IntOk(it.k[1].k[1], 4)
SignalOf(it) == Int32(it.k[1].k[1])

(* Connections App 16: target [0], sources [1], operation [2], disposition [3] *)
ConnOk(it) ==
    /\ it.t = Application(16) /\ Len(it.k) >= 1
    /\ Different(it.k, ItemTag)
    /\ \A j \in 1..Len(it.k) : One(it.k[j])
    /\ it.k[1].t = Context(0) /\ IntOk(it.k[1].k[1], 4)
    /\ \A j \in 2..Len(it.k) :
          \/ it.k[j].t = Context(1) /\ OidOk(it.k[j].k[1])
          \/ it.k[j].t \in {Context(2), Context(3)} /\ IntOk(it.k[j].k[1], 4)
(* what must be refused *)
ConnRange(it) ==
    \A j \in 2..Len(it.k) :
       /\ it.k[j].t = Context(2) => Int32(it.k[j].k[1]) \in 0..2
       /\ it.k[j].t = Context(3) => Int32(it.k[j].k[1]) \in 0..3
ConnOf(it) ==
    LET F(n) == SelectSeq(it.k, LAMBDA x : x.t = Context(n))
        N(n) == IF F(n) = <<>> THEN 0 ELSE Int32(F(n)[1].k[1]) IN
    [t |-> Int32(it.k[1].k[1]), s |-> IF F(1) = <<>> THEN <<>> ELSE Oid(F(1)[1].k[1].c).v, o |-> N(2), d |-> N(3)]

(* Invocations App 22: identifier [0], arguments [1] *)
InvOk(it) ==
    /\ it.t = Application(22)
    /\ Different(it.k, ItemTag)
    /\ \A j \in 1..Len(it.k) : One(it.k[j])
    /\ \A j \in 1..Len(it.k) :
          \/ it.k[j].t = Context(0) /\ IntOk(it.k[j].k[1], 4)
          \/ it.k[j].t = Context(1) /\ ListOk(it.k[j].k[1], ValueOk)
(* a field which is neither *)
InvUnknown(it) ==
    /\ it.t = Application(22)
    /\ \E j \in 1..Len(it.k) : it.k[j].t \notin {Context(0), Context(1)}
InvOf(it) ==
    LET F(n) == SelectSeq(it.k, LAMBDA x : x.t = Context(n)) IN
    [id |-> IF F(0) = <<>> THEN 0 ELSE Int32(F(0)[1].k[1]),
     a |-> IF F(1) = <<>> THEN <<>> ELSE ListOf(F(1)[1].k[1], ValueOf)]

-----------------------------------------------------------------------------
(* Elements *)

NumOf(e) == e.p[Len(e.p)]

El0 == [k |-> "node", q |-> FALSE, p |-> <<0>>, has |-> FALSE, f |-> <<>>, ch |-> <<>>,
        tg |-> <<>>, sr |-> <<>>, cn |-> <<>>]

(* the number, or the last one of the path *)
NumAt(it) == LET x == it.k[1].k[1] IN
    IF IsQTag(it.t) THEN LET o == Oid(x.c).v IN o[Len(o)] ELSE Int32(x)

RECURSIVE ElOk(_), ElOf(_)

ElOk(it) ==
    LET kind == KindOf(it.t) IN
    /\ kind # "none"
    /\ Len(it.k) >= 1
    /\ Different(it.k, ItemTag)
    /\ it.k[1].t = Context(0) /\ One(it.k[1])
    /\ IF IsQTag(it.t) THEN OidOk(it.k[1].k[1]) /\ it.k[1].k[1].c # <<>> ELSE IntOk(it.k[1].k[1], 4)
    /\ \A j \in 2..Len(it.k) :
          LET x == it.k[j] IN
          /\ One(x)
          /\ \/ x.t = Context(1) /\ ContentsOk(kind, x.k[1])
             \/ /\ x.t = Context(2)
                /\ x.k[1].t = Application(4)
                /\ \A l \in 1..Len(x.k[1].k) :
                      LET y == x.k[1].k[l] IN
                      y.t = Context(0) /\ One(y) /\ ElOk(y.k[1])
                /\ LET N(y) == NumAt(y.k[1]) IN Different(x.k[1].k, N)
             \/ x.t = Context(3) /\ kind = "matrix" /\ ListOk(x.k[1], LAMBDA y : SignalOk(y, Application(14)))
             \/ x.t = Context(4) /\ kind = "matrix" /\ ListOk(x.k[1], LAMBDA y : SignalOk(y, Application(15)))
             \/ x.t = Context(5) /\ kind = "matrix" /\ ListOk(x.k[1], LAMBDA y : ConnOk(y) /\ ConnRange(y))

ElOf(it) ==
    LET kind == KindOf(it.t)
        q == IsQTag(it.t)
        F(n) == SelectSeq(it.k, LAMBDA x : x.t = Context(n))
        L(n, Of(_)) == IF F(n) = <<>> THEN <<>> ELSE ListOf(F(n)[1].k[1], Of)
    IN [k |-> kind, q |-> q,
        p |-> IF q THEN Oid(it.k[1].k[1].c).v ELSE <<Int32(it.k[1].k[1])>>,
        has |-> F(1) # <<>>,
        f |-> IF F(1) = <<>> THEN <<>> ELSE ContentsOf(kind, F(1)[1].k[1]),
        ch |-> IF F(2) = <<>> THEN <<>> ELSE ByNumber(ListOf(F(2)[1].k[1], ElOf), NumOf),
        tg |-> L(3, SignalOf), sr |-> L(4, SignalOf), cn |-> L(5, ConnOf)]

(* A message: App 0 { App 11 { [0] element ... } } or nothing in App 0 *)
MsgItemOk(it) ==
    /\ it.t = Application(0)
    /\ Len(it.k) <= 1
    /\ Len(it.k) = 1 =>
          /\ it.k[1].t = Application(11)
          /\ \A j \in 1..Len(it.k[1].k) :
                LET x == it.k[1].k[j] IN x.t = Context(0) /\ One(x) /\ ElOk(x.k[1])
MsgItemOf(it) == IF it.k = <<>> THEN <<>> ELSE ListOf(it.k[1], ElOf)

(* What all of b is, for the decoder given by Ok and Of: st "ok", "other",   *)
(* or that of Parse.                                                       *)
Single(b, Ok(_), Of(_)) ==
    LET it == Parse(b)
        x == [t |-> it.t, c |-> it.c, k |-> it.k] IN
    IF it.st # "ok" THEN [st |-> it.st, v |-> <<>>]
    ELSE IF it.next = Len(b) + 1 /\ Ok(x) THEN [st |-> "ok", v |-> Of(x)]
    ELSE [st |-> "other", v |-> <<>>]

Msg(b) == Single(b, MsgItemOk, MsgItemOf)

(* All fields have a type that the DTD gives them; the exceptions. *)
RECURSIVE OddFields(_)
OddFields(e) ==
    { <<e.k, e.f[j].k, e.f[j].t>> : j \in { x \in 1..Len(e.f) : e.f[x].t \notin FieldTypes(e.k)[e.f[x].k] } }
    \cup UNION { OddFields(e.ch[j]) : j \in 1..Len(e.ch) }

-----------------------------------------------------------------------------
(* Getters of the contents: which fields can be asked for, under which type. *)
AnyT == {"int", "real", "str", "bool", "buf", "oid"}
Getters(kind) ==
    CASE kind = "node" -> FieldTypes("node")
      [] kind = "param" ->
         0 :> {"str"} @@ 1 :> {"str"} @@ 2 :> AnyT @@ 3 :> AnyT @@ 4 :> AnyT @@ 5 :> {"str"} @@ 6 :> {"str"} @@ 7 :> {"str"}
         @@ 8 :> {"int"} @@ 9 :> {"bool"} @@ 10 :> {"str"} @@ 11 :> {"int"} @@ 12 :> AnyT @@ 13 :> {"str"} @@ 14 :> {"int"}
      [] kind = "matrix" ->
         0 :> {"str"} @@ 1 :> {"str"} @@ 2 :> {"int"} @@ 3 :> {"int"} @@ 4 :> {"int"} @@ 5 :> {"int"} @@ 6 :> {"int"}
         @@ 7 :> {"int"} @@ 8 :> {"oid"} @@ 9 :> {"int"} @@ 11 :> {"str"}
      [] kind = "func" -> FieldTypes("func")
      [] kind = "cmd" -> FieldTypes("cmd")

(* What all of them return for fields f: unset type and mode have a default; *)
(* those which do not fit in a byte are refused.                            *)
OneByte(v) == v = Rep(IF v[8] < 128 THEN 0 ELSE 255, 7) \o <<v[8]>>
Got(kind, f) ==
    LET g == Getters(kind)
        given == SelectSeq(f, LAMBDA x : x.k \in DOMAIN g /\ x.t \in g[x.k] /\ (kind = "matrix" /\ x.k \in {2, 3} => OneByte(x.v)))
        D(n) == IF kind = "matrix" /\ \A j \in 1..Len(f) : f[j].k # n
                THEN <<[k |-> n, t |-> "int", v |-> SmallInt8(0)]>> ELSE <<>>
    IN ByNumber(given \o D(2) \o D(3), FK)

-----------------------------------------------------------------------------
(* Encoding, with the length form of every container chosen by F, a         *)
(* function of the nesting depth: 0 indefinite, 1 shortest definite,        *)
(* 2..5 definite in long form with one to four bytes; and fields in         *)
(* ascending (rev FALSE) or descending order.                               *)

Wrap(F, d, tag, c) ==
    LET f == F[(d % Len(F)) + 1] IN
    IF f = 0 THEN <<tag, 128>> \o c \o <<0, 0>>
    ELSE IF f = 1 \/ (f = 2 /\ Len(c) > 255) THEN <<tag>> \o LenOctets(Len(c)) \o c
    ELSE <<tag>> \o LenForm(Len(c), f - 1) \o c

RealBytes(v8) ==
    IF RIsZero(v8) THEN <<>> ELSE IF v8 = RInf THEN <<64>> ELSE IF v8 = RNegInf THEN <<65>> ELSE IF RIsNaN(v8) THEN <<66>>
    ELSE LET x == RExp(v8) - 1023
             m == <<1>> \o DropTrail(RFrac(v8), 0) IN
         <<128 + 64 * RSign(v8) + 1>> \o SubSeq(SmallInt8(x), 7, 8) \o Bytes(Rep(0, (8 - (Len(m) % 8)) % 8) \o m)

EncValue(t, v) ==
    LET c == CASE t = "int" -> Shortest(v)
               [] t = "real" -> RealBytes(v)
               [] t = "oid" -> OidContent(v)
               [] t = "bool" -> <<IF v = <<0>> THEN 0 ELSE 255>>
               [] OTHER -> v
        tag == CASE t = "int" -> TagInteger [] t = "real" -> TagReal [] t = "oid" -> TagRelOID
                 [] t = "bool" -> TagBoolean [] t = "str" -> TagUTF8 [] t = "buf" -> TagBitString
    IN <<tag>> \o LenOctets(Len(c)) \o c

Ordered(rev, s) == IF rev THEN [j \in 1..Len(s) |-> s[Len(s) + 1 - j]] ELSE s
Concat(s) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, s)

RECURSIVE UnflatLabels(_), UnflatTuples(_)
UnflatLabels(v) ==
    IF v = <<>> THEN <<>>
    ELSE LET n == v[1]
             m == v[n + 2] IN
         <<[p |-> SubSeq(v, 2, n + 1), d |-> SubSeq(v, n + 3, n + 2 + m)]>> \o UnflatLabels(SubSeq(v, n + 3 + m, Len(v)))
UnflatTuples(v) ==
    IF v = <<>> THEN <<>>
    ELSE <<[t |-> v[1], n |-> SubSeq(v, 3, v[2] + 2)]>> \o UnflatTuples(SubSeq(v, v[2] + 3, Len(v)))

EncList(F, d, cs) == Wrap(F, d, TagSequence, Concat([j \in 1..Len(cs) |-> Wrap(F, d + 1, Context(0), cs[j])]))

EncLabel(F, d, l) == Wrap(F, d, Application(18),
    Wrap(F, d + 1, Context(0), EncValue("oid", l.p)) \o Wrap(F, d + 1, Context(1), EncValue("str", l.d)))
EncTuple(F, rev, d, t) == Wrap(F, d, Application(21), Concat(Ordered(rev,
    <<Wrap(F, d + 1, Context(0), EncValue("int", SmallInt8(t.t))), Wrap(F, d + 1, Context(1), EncValue("str", t.n))>>)))

EncField(F, rev, d, f) ==
    Wrap(F, d, Context(f.k),
         CASE f.t = "labels" -> LET ls == UnflatLabels(f.v) IN
                 EncList(F, d + 1, [j \in 1..Len(ls) |-> EncLabel(F, d + 3, ls[j])])
           [] f.t = "tuples" -> LET ts == UnflatTuples(f.v) IN
                 EncList(F, d + 1, [j \in 1..Len(ts) |-> EncTuple(F, rev, d + 3, ts[j])])
           [] OTHER -> EncValue(f.t, f.v))

EncContents(F, rev, d, k, f) ==
    IF k = "cmd" THEN EncValue("int", f[1].v)
    ELSE Wrap(F, d, TagSet, Concat(Ordered(rev, [j \in 1..Len(f) |-> EncField(F, rev, d + 1, f[j])])))

EncSignal(F, d, tag, n) == Wrap(F, d, tag, Wrap(F, d + 1, Context(0), EncValue("int", SmallInt8(n))))
EncConn(F, rev, d, c) == Wrap(F, d, Application(16),
    Wrap(F, d + 1, Context(0), EncValue("int", SmallInt8(c.t)))
    \o Concat(Ordered(rev, <<
         IF c.s = <<>> THEN <<>> ELSE Wrap(F, d + 1, Context(1), EncValue("oid", c.s)),
         IF c.o = 0 THEN <<>> ELSE Wrap(F, d + 1, Context(2), EncValue("int", SmallInt8(c.o))),
         IF c.d = 0 THEN <<>> ELSE Wrap(F, d + 1, Context(3), EncValue("int", SmallInt8(c.d)))>>)))

RECURSIVE EncEl(_, _, _, _)
EncEl(F, rev, d, e) ==
    Wrap(F, d, TagOf(e.k, e.q),
         Wrap(F, d + 1, Context(0), IF e.q THEN EncValue("oid", e.p) ELSE EncValue("int", SmallInt8(e.p[1])))
         \o Concat(Ordered(rev, <<
              IF e.has THEN Wrap(F, d + 1, Context(1), EncContents(F, rev, d + 2, e.k, e.f)) ELSE <<>>,
              IF e.ch # <<>> THEN Wrap(F, d + 1, Context(2), Wrap(F, d + 2, Application(4),
                   Concat(Ordered(rev, [j \in 1..Len(e.ch) |-> Wrap(F, d + 3, Context(0), EncEl(F, rev, d + 4, e.ch[j]))]))))
              ELSE <<>>,
              IF e.tg # <<>> THEN Wrap(F, d + 1, Context(3), EncList(F, d + 2,
                   [j \in 1..Len(e.tg) |-> EncSignal(F, d + 4, Application(14), e.tg[j])])) ELSE <<>>,
              IF e.sr # <<>> THEN Wrap(F, d + 1, Context(4), EncList(F, d + 2,
                   [j \in 1..Len(e.sr) |-> EncSignal(F, d + 4, Application(15), e.sr[j])])) ELSE <<>>,
              IF e.cn # <<>> THEN Wrap(F, d + 1, Context(5), EncList(F, d + 2,
                   [j \in 1..Len(e.cn) |-> EncConn(F, rev, d + 4, e.cn[j])])) ELSE <<>> >>)))

EncMsg(F, rev, els) ==
    Wrap(F, 0, Application(0),
         IF els = <<>> THEN <<>>
         ELSE Wrap(F, 1, Application(11), Concat([j \in 1..Len(els) |-> Wrap(F, 2, Context(0), EncEl(F, rev, 3, els[j]))])))
=============================================================================
