------------------------------ MODULE MCWriter ------------------------------
(***************************************************************************)
(* C35: all short programs of starting and ending sequences, writing       *)
(* values and taking bytes.  Two designs of a writer, one that writes      *)
(* lengths when a sequence ends and one that marks the end, must say what  *)
(* was written; flawed ones must be told from them.                        *)
(***************************************************************************)
EXTENDS Writer, TLC, Json, IOUtils

Deep == IOEnv.TIER = "thorough"
Depth == IF Deep THEN 6 ELSE 5

Long == [j \in 1..126 |-> 97]
V(k, v, tag) == [k |-> k, v |-> v, tag |-> tag]
Values == { V("int", <<0, 0, 0, 0, 0, 0, 0, 0>>, 0), V("buf", <<0, 0>>, 4), V("str", Long, 0) }
          \cup (IF Deep THEN { V("oid", <<>>, 0), V("bool", <<1>>, 0) } ELSE {})
Tags == {48, 160}

Right == {"ends", "lengths"}
Flaws == {"short lengths", "no end of empty", "end of all", "inner tag", "take drops", "late values"}

VARIABLES w, d, design, hist
vars == <<w, d, design, hist>>

BytesOf(e) == LET c == IF e.k = "int" THEN Shortest(e.v) ELSE IF e.k = "oid" THEN OidContent(e.v) ELSE IF e.k = "bool" THEN <<255>> ELSE e.v
            IN <<WTag(e)>> \o LenOctets(Len(c)) \o c

(* d: out the bytes given, buf those not yet taken, stk the sequences that are open *)
Init == w = WInit /\ design \in Right \cup Flaws /\ hist = <<>> /\ d = [out |-> <<>>, buf |-> <<>>, stk |-> <<>>]

Buffered == design \notin {"ends", "no end of empty", "end of all", "inner tag", "take drops"}
Put(x, b) == IF x.stk = <<>> \/ ~Buffered THEN [x EXCEPT !.buf = @ \o b, !.stk = IF @ = <<>> THEN @ ELSE [@ EXCEPT ![Len(@)].n = @ + 1]]
             ELSE [x EXCEPT !.stk[Len(x.stk)].b = IF design = "late values" THEN b \o @ ELSE @ \o b]
Start(t) ==
    /\ w' = WStart(w, t) /\ hist' = Append(hist, [do |-> "start", tag |-> t, k |-> "", v |-> <<>>])
    /\ LET t1 == IF design = "inner tag" /\ d.stk # <<>> THEN d.stk[Len(d.stk)].t ELSE t
           x == IF Buffered THEN d ELSE Put(d, <<t1, 128>>) IN
       d' = [x EXCEPT !.stk = Append(@, [t |-> t1, b |-> <<>>, n |-> 0])]
End ==
    /\ w.open # <<>> /\ w' = WEnd(w) /\ hist' = Append(hist, [do |-> "end", tag |-> 0, k |-> "", v |-> <<>>])
    /\ LET x == [d EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)]
           top == IF d.stk = <<>> THEN [t |-> 0, b |-> <<>>, n |-> 0] ELSE d.stk[Len(d.stk)] IN
       d' = IF d.stk = <<>> THEN d
            ELSE IF design = "end of all"
            THEN [d EXCEPT !.stk = <<>>, !.buf = @ \o [j \in 1..2 * Len(d.stk) |-> 0]]
            ELSE IF Buffered
            THEN Put(x, <<top.t>> \o (IF design = "short lengths" THEN <<Len(top.b) % 128>> ELSE LenOctets(Len(top.b))) \o top.b)
            ELSE IF design = "no end of empty" /\ top.n = 0 THEN x ELSE [x EXCEPT !.buf = @ \o <<0, 0>>]
Write(e) ==
    /\ w' = WValue(w, e) /\ d' = Put(d, BytesOf(e)) /\ hist' = Append(hist, [do |-> "value", tag |-> e.tag, k |-> e.k, v |-> e.v])
Take(n) ==
    /\ hist # <<>> /\ hist[Len(hist)].do # "take"
    /\ UNCHANGED w /\ hist' = Append(hist, [do |-> "take", tag |-> n, k |-> "", v |-> <<>>])
    /\ LET m == IF n > Len(d.buf) THEN Len(d.buf) ELSE n IN
       d' = [d EXCEPT !.out = @ \o SubSeq(d.buf, 1, m),
                      !.buf = SubSeq(@, (IF design = "take drops" /\ m < Len(@) THEN m + 2 ELSE m + 1), Len(@))]

Next == /\ Len(hist) < Depth /\ UNCHANGED design
        /\ \/ \E t \in Tags : Start(t)
           \/ End
           \/ \E e \in Values : Write(e)
           \/ Take(3)
Spec == Init /\ [][Next]_vars
View == <<w, d, design, IF design = "ends" THEN hist ELSE <<>> >>

ASSUME TLCSet(7, {})
Said == w.open = <<>> =>
        LET ok == Tells(d.out \o d.buf, w.items) IN
        /\ design \in Right => ok
        /\ IF ~ok /\ design \notin TLCGet(7) THEN TLCSet(7, TLCGet(7) \cup {design}) ELSE TRUE
Found == IF TLCGet(7) = Flaws THEN TRUE ELSE PrintT(<<"flaws found", TLCGet(7)>>) /\ FALSE

Emit == (design = "ends" /\ w'.open = <<>> /\ hist'[Len(hist')].do # "take") => PrintT("CASE " \o ToJson(hist'))
=============================================================================
