-------------------------------- MODULE Show --------------------------------
(***************************************************************************)
(* The text of a tree.  An element is a block                              *)
(*    {                                                                    *)
(*      tag: 99,                                                           *)
(*      number: 1,                                                         *)
(*      path: 2.1,                                                         *)
(*      content: {  label: value ...  },        or   content: nil,         *)
(*      children: [ blocks ]                                               *)
(*    }                                                                    *)
(* and lines, their indentation, commas at the end of lines, empty lines,  *)
(* and lower and upper case of labels do not matter.  Fields that are not  *)
(* set have no line, or one without value.  Texts are sequences of bytes.  *)
(***************************************************************************)
EXTENDS EmberTree

Letters == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == FoldLeft(LAMBDA acc, i : acc @@ (SubSeq(Letters, i, i) :> 31 + i), <<>>, [i \in 1..Len(Letters) |-> i])
Chars(s) == FoldLeft(LAMBDA acc, i : Append(acc, CodeOf[SubSeq(s, i, i)]), <<>>, [i \in 1..Len(s) |-> i])

-----------------------------------------------------------------------------
(* Values as text *)

RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))

(* A number of 8 bytes, without sign, in decimal digits, the last one first *)
RECURSIVE Carry(_, _)
Carry(ds, c) == IF ds = <<>> THEN IF c = 0 THEN <<>> ELSE <<c % 10>> \o Carry(<<>>, c \div 10)
                ELSE LET x == ds[1] * 256 + c IN <<x % 10>> \o Carry(Tail(ds), x \div 10)
Digits8(bs) == LET ds == FoldLeft(Carry, <<>>, bs) IN
    IF ds = <<>> THEN <<48>> ELSE [i \in 1..Len(ds) |-> 48 + ds[Len(ds) + 1 - i]]

Minus8(bs) == \* two's complement
    LET z == { i \in 1..8 : bs[i] # 0 }
        last == CHOOSE i \in z : \A j \in z : j <= i IN
    [i \in 1..8 |-> IF i < last THEN 255 - bs[i] ELSE IF i = last THEN 256 - bs[i] ELSE 0]

IntText(bs) == IF bs[1] >= 128 THEN <<45>> \o Digits8(Minus8(bs)) ELSE Digits8(bs)

HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
HexText(bs) == Flat(bs, LAMBDA b : <<HexDigit(b \div 16), HexDigit(b % 16)>>)

Dotted(p) == IF p = <<>> THEN <<>> ELSE FoldLeft(LAMBDA acc, n : acc \o <<46>> \o Dec(n), Dec(p[1]), Tail(p))

(* Reals that are n/64 with n below 2^17 have at most six decimals; of the  *)
(* others the text says about as much, and this specification nothing.     *)
Exp(bs) == (bs[1] % 128) * 16 + (bs[2] \div 16) - 1023
Pow(n) == 2 ^ n
SixtyFourths(bs) ==
    LET e == Exp(bs)
        m == 65536 + (bs[2] % 16) * 4096 + bs[3] * 16 + (bs[4] \div 16) IN
    IF \A i \in 1..8 : bs[i] = 0 THEN 0
    ELSE IF e < -6 \/ e > 10 \/ bs[4] % 16 # 0 \/ (\E i \in 5..8 : bs[i] # 0) \/ m % Pow(10 - e) # 0 THEN -1
    ELSE m \div Pow(10 - e)
Decimals(n) == [i \in 1..6 |-> 48 + ((n \div (10 ^ (6 - i))) % 10)]
RealText(bs) == LET k == SixtyFourths(bs) * 15625 IN
    (IF bs[1] >= 128 THEN <<45>> ELSE <<>>) \o Dec(k \div 1000000) \o <<46>> \o Decimals(k % 1000000)
RealShown(bs) == SixtyFourths(bs) >= 0

ValueText(t, v) ==
    CASE t = "str" -> v
      [] t = "bool" -> IF v = <<0>> THEN Chars("false") ELSE Chars("true")
      [] t = "int" -> IntText(v)
      [] t = "oid" -> Dotted(v)
      [] t = "buf" -> HexText(v)
      [] t = "real" -> IF RealShown(v) THEN RealText(v) ELSE <<>>

(* Texts that a line can hold such that it can be read again *)
Space == {32, 9, 13}
Clean(s) == s # <<>> => /\ \A i \in 1..Len(s) : s[i] \notin {10}
                        /\ s[1] \notin Space /\ s[Len(s)] \notin Space \cup {44}

-----------------------------------------------------------------------------
(* What is shown of an element: label -> value *)

Small(v) == IF \A i \in 1..7 : v[i] = 0 THEN v[8] ELSE -1

LabelsOf(k) ==
    LET both == << <<0, "identifier">>, <<1, "description">> >> IN
    CASE k = "node" -> both \o << <<2, "isroot">>, <<3, "isonline">> >>
      [] k = "param" -> both \o << <<2, "value">>, <<3, "minimum">>, <<4, "maximum">>, <<12, "default">>, <<5, "access">>, <<6, "format">>,
                                   <<7, "enumeration">>, <<8, "factor">>, <<11, "step">>, <<9, "isonline">>,
                                   <<13, "type">>, <<14, "streamidentifier">> >>
      [] OTHER -> both
Labels == [k \in {"node", "param", "matrix", "func"} |-> LET ls == LabelsOf(k) IN [i \in 1..Len(ls) |-> <<ls[i][1], Chars(ls[i][2])>>]]

Has(fs, n) == \E i \in 1..Len(fs) : fs[i].k = n
Get(fs, n) == CHOOSE x \in SeqToSet(fs) : x.k = n

(* the lines with a value, as a set of <<label, value>> *)
FieldLines(k, fs) ==
    LET ls == Labels[k] IN
    { <<ls[i][2], ValueText(Get(fs, ls[i][1]).t, Get(fs, ls[i][1]).v)>> : i \in { i \in 1..Len(ls) : Has(fs, ls[i][1]) } }
    \cup (IF k # "matrix" THEN {}
          ELSE LET t == IF Has(fs, 2) THEN Small(Get(fs, 2).v) ELSE 0
                   m == IF Has(fs, 3) THEN Small(Get(fs, 3).v) ELSE 0 IN
               { << Chars("type"), Chars(CASE t = 0 -> "OneToN" [] t = 1 -> "OneToOne" [] OTHER -> "NToN") >>,
                 << Chars("mode"), Chars(IF m = 0 THEN "Linear" ELSE "Non-Linear") >> })

(* whether the text of the fields is what this specification says *)
Showable(k, fs) ==
    /\ \A i \in 1..Len(fs) : fs[i].t = "str" => Clean(fs[i].v)
    /\ \A i \in 1..Len(fs) : fs[i].t = "real" => RealShown(fs[i].v)
    /\ k = "matrix" => /\ (Has(fs, 2) => Small(Get(fs, 2).v) \in 0..2)
                       /\ (Has(fs, 3) => Small(Get(fs, 3).v) \in 0..1)
    /\ k = "param" => ~Has(fs, 5) /\ ~Has(fs, 13) \* known finding access-type-strings of C10

RECURSIVE ShownAt(_, _)
ShownAt(t, p) ==
    LET n == t[p] IN
    [tag |-> Dec(TagOf(n.k, n.q)), number |-> Dec(p[Len(p)]), path |-> Dotted(p), has |-> n.has,
     lines |-> IF n.has THEN { x \in FieldLines(n.k, n.f) : x[2] # <<>> } ELSE {},
     children |-> { ShownAt(t, c) : c \in Kids(t, p) }]
Shown(t) == { ShownAt(t, c) : c \in Kids(t, <<>>) }
AllShowable(t) == \A p \in DOMAIN t : t[p].has => Showable(t[p].k, t[p].f)

-----------------------------------------------------------------------------
(* Reading a text *)

Trim(s) ==
    LET in == { i \in 1..Len(s) : s[i] \notin Space } IN
    IF in = {} THEN <<>>
    ELSE LET a == CHOOSE i \in in : \A j \in in : i <= j
             z == CHOOSE i \in in : \A j \in in : i >= j IN
         IF s[z] = 44 THEN LET b == { i \in in : i < z } IN
                           IF b = {} THEN <<>> ELSE SubSeq(s, a, CHOOSE i \in b : \A j \in b : i >= j)
         ELSE SubSeq(s, a, z)

LinesOf(text) ==
    LET ends == SelectSeq([i \in 1..Len(text) |-> i], LAMBDA i : text[i] = 10) \o <<Len(text) + 1>> IN
    [j \in 1..Len(ends) |-> Trim(SubSeq(text, IF j = 1 THEN 1 ELSE ends[j - 1] + 1, ends[j] - 1))]

Lower(s) == [i \in 1..Len(s) |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]]
Colon(s) == LET c == { i \in 1..Len(s) : s[i] = 58 } IN IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : i <= j

(* The reader: a stack of the blocks that are open, the outermost is a list; *)
(* in: "list" (between blocks), "block", "content".                          *)
Block0 == [tag |-> <<>>, number |-> <<>>, path |-> <<>>, has |-> FALSE, lines |-> {}, children |-> {}]
R0 == [stack |-> <<Block0>>, in |-> "list", bad |-> FALSE]
Top(r) == r.stack[Len(r.stack)]
SetTop(r, b) == [r EXCEPT !.stack[Len(r.stack)] = b]
Wrong(r) == [r EXCEPT !.bad = TRUE]

LContent == Chars("content")
LChildren == Chars("children")
LTag == Chars("tag")
LNumber == Chars("number")
LPath == Chars("path")
LNil == Chars("nil")

RECURSIVE ReadLine(_, _)
ReadLine(r, s) ==
    IF s = <<>> \/ r.bad THEN r
    ELSE LET c == Colon(s)
             label == Lower(SubSeq(s, 1, c - 1))
             value == Trim(SubSeq(s, c + 1, Len(s))) IN
    IF r.in = "list" THEN
        IF s[1] = 123 THEN ReadLine([r EXCEPT !.stack = Append(@, Block0), !.in = "block"], Trim(Tail(s)))
        ELSE IF s = <<93>> THEN IF Len(r.stack) = 1 THEN Wrong(r) ELSE [r EXCEPT !.in = "block"]
        ELSE Wrong(r)
    ELSE IF r.in = "block" THEN
        IF s = <<125>> THEN
            LET b == Top(r)
                up == SubSeq(r.stack, 1, Len(r.stack) - 1)
                r2 == [r EXCEPT !.stack = up, !.in = "list"] IN
            IF b \in Top(r2).children THEN Wrong(r)
            ELSE SetTop(r2, [Top(r2) EXCEPT !.children = @ \cup {b}])
        ELSE IF c = 0 THEN Wrong(r)
        ELSE IF label = LTag THEN SetTop(r, [Top(r) EXCEPT !.tag = value])
        ELSE IF label = LNumber THEN SetTop(r, [Top(r) EXCEPT !.number = value])
        ELSE IF label = LPath THEN SetTop(r, [Top(r) EXCEPT !.path = value])
        ELSE IF label = LContent THEN
            IF value = LNil THEN r
            ELSE IF value # <<>> /\ value[1] = 123
                 THEN ReadLine([SetTop(r, [Top(r) EXCEPT !.has = TRUE]) EXCEPT !.in = "content"], Trim(Tail(value)))
                 ELSE Wrong(r)
        ELSE IF label = LChildren /\ value = <<91>> THEN [r EXCEPT !.in = "list"]
        ELSE Wrong(r)
    ELSE IF s = <<125>> THEN [r EXCEPT !.in = "block"]
    ELSE IF c = 0 \/ (\E x \in Top(r).lines : x[1] = label) THEN Wrong(r)
    ELSE IF value = <<>> THEN r
    ELSE SetTop(r, [Top(r) EXCEPT !.lines = @ \cup { <<label, value>> }])

ReadText(text) ==
    LET r == FoldLeft(ReadLine, R0, LinesOf(text)) IN
    [ok |-> ~r.bad /\ r.in = "list" /\ Len(r.stack) = 1, els |-> r.stack[1].children]

-----------------------------------------------------------------------------
(* A way to write it, and flawed ways: only the last line of the contents is *)
(* kept; the value is missing; lines run together.                          *)
T1 == Chars("  ")
T2 == Chars(": %!s(MISSING)")
T3 == Chars(": ")
T4 == Chars("{")
T5 == Chars("  tag: ")
T6 == Chars(",")
T7 == Chars("  number: ")
T8 == Chars("  path: ")
T9 == Chars("  content: ")
T10 == Chars("}")
T11 == Chars("  children: [")
T12 == Chars("]")
NL == <<10>>
LineText(how, x) ==
    T1 \o x[1]
    \o (CASE how = "no value" -> T2 [] OTHER -> T3 \o x[2])
    \o (IF how = "no end" THEN <<>> ELSE NL)
LinesText(how, ls) ==
    IF how = "last" THEN IF ls = <<>> THEN <<>> ELSE LineText(how, ls[Len(ls)])
    ELSE FoldLeft(LAMBDA acc, x : acc \o LineText(how, x), <<>>, ls)
RECURSIVE BlockText(_, _)
BlockText(how, b) ==
    T4 \o NL \o T5 \o b.tag \o T6 \o NL
    \o T7 \o b.number \o T6 \o NL
    \o T8 \o b.path \o T6 \o NL
    \o T9
    \o (IF b.has THEN T4 \o NL \o LinesText(how, SetToSeq(b.lines)) \o T10 \o NL ELSE LNil)
    \o T6 \o NL \o T11 \o NL
    \o FoldLeft(LAMBDA acc, x : acc \o BlockText(how, x) \o NL, <<>>, SetToSeq(b.children))
    \o T12 \o NL \o T10
TextOf(how, els) == FoldLeft(LAMBDA acc, x : acc \o BlockText(how, x) \o NL, <<>>, SetToSeq(els))
=============================================================================
