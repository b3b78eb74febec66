------------------------------ MODULE EmberTree ------------------------------
(***************************************************************************)
(* The tree that a consumer holds, and what messages make of it.           *)
(*                                                                         *)
(* A tree maps the positions of its elements, which are their paths from   *)
(* the root, to what is known of them: kind k, whether it is held in       *)
(* qualified form q, contents (has, fields f), and the targets, sources    *)
(* and connections of matrices.                                            *)
(***************************************************************************)
EXTENDS Glow

Parent(p) == SubSeq(p, 1, Len(p) - 1)
Ct(c) == c.t
Conns(cn) == ByNumber(cn, Ct)

(* Messages that this specification speaks of: qualified elements at the top only. *)
RECURSIVE PlainChildren(_)
PlainChildren(d) ==
    /\ Different(d.ch, NumOf)
    /\ \A j \in 1..Len(d.ch) : ~d.ch[j].q /\ d.ch[j].k # "cmd" /\ PlainChildren(d.ch[j])
    /\ Different(d.cn, Ct)
Plain(els) == \A j \in 1..Len(els) : els[j].k # "cmd" /\ PlainChildren(els[j])

NodeOf(d) == [k |-> d.k, q |-> d.q, has |-> d.has, f |-> NormFields(d.f), tg |-> d.tg, sr |-> d.sr, cn |-> Conns(d.cn)]

RECURSIVE Below(_, _)
(* d and all below it, as a tree of its own at position p *)
Below(p, d) ==
    LET sub == [j \in 1..Len(d.ch) |-> Below(Append(p, NumOf(d.ch[j])), d.ch[j])]
    IN FoldLeft(LAMBDA acc, x : acc @@ x, p :> NodeOf(d), sub)

MergeFields(old, new) ==
    ByNumber(SelectSeq(old, LAMBDA x : \A j \in 1..Len(new) : new[j].k # x.k) \o new, FK)
MergeConns(old, new) ==
    Conns(SelectSeq(old, LAMBDA x : \A j \in 1..Len(new) : new[j].t # x.t) \o new)

Merge(n, d) ==
    [n EXCEPT !.has = @ \/ d.has,
              !.f = IF d.has THEN MergeFields(@, NormFields(d.f)) ELSE @,
              !.tg = IF d.tg = <<>> THEN @ ELSE d.tg,
              !.sr = IF d.sr = <<>> THEN @ ELSE d.sr,
              !.cn = MergeConns(@, d.cn)]

Kids(t, p) == { x \in DOMAIN t : Len(x) = Len(p) + 1 /\ SubSeq(x, 1, Len(p)) = p }
KidNumbers(t, p) == { x[Len(x)] : x \in Kids(t, p) }

(* A notice is owed to the listeners of the element at pos after its update:  *)
(* when they hear of it, it has contents g and children kids.                 *)
NoticeOf(t, p) == [pos |-> p, g |-> IF t[p].has THEN Got(t[p].k, t[p].f) ELSE <<>>, kids |-> KidNumbers(t, p)]

(* a: [t, notices, refused].  The update d of what is at p, or its addition.  *)
RECURSIVE Put(_, _, _)
Put(a, p, d) ==
    IF p \notin DOMAIN a.t THEN [a EXCEPT !.t = Below(p, d) @@ @]
    ELSE IF a.t[p].k # d.k THEN [a EXCEPT !.refused = TRUE]
    ELSE LET own == [a EXCEPT !.t[p] = Merge(@, d)]
             all == FoldLeft(LAMBDA acc, c : Put(acc, Append(p, NumOf(c)), c), own, d.ch) IN
         [all EXCEPT !.notices = Append(@, NoticeOf(all.t, p))]

(* One element of a message *)
Take(a, d) ==
    IF d.q /\ Len(d.p) > 1
    THEN IF d.p \in DOMAIN a.t THEN Put(a, d.p, d)
         ELSE IF Parent(d.p) \in DOMAIN a.t THEN [Put(a, d.p, d) EXCEPT !.grown = @ \cup { Parent(d.p) }]
         ELSE a
    ELSE Put(a, <<NumOf(d)>>, d)

Apply(t, els) ==
    LET a == FoldLeft(Take, [t |-> t, notices |-> <<>>, grown |-> {}, refused |-> FALSE], els) IN
    [t |-> a.t, refused |-> a.refused,
     notices |-> a.notices \o <<[pos |-> <<>>, g |-> <<>>, kids |-> KidNumbers(a.t, <<>>)]>>
                 \o SetToSeq({ NoticeOf(a.t, p) : p \in a.grown })]

NoTree == [p \in {} |-> 0]

(* What the program itself does to the tree: new contents, others, a field of  *)
(* them, a new element with all below it, in place of what was there.          *)
AtOrBelow(p, x) == Len(x) >= Len(p) /\ SubSeq(x, 1, Len(p)) = p
FreshFields(k) == IF k = "matrix" THEN << [k |-> 2, t |-> "int", v |-> SmallInt8(0)], [k |-> 3, t |-> "int", v |-> SmallInt8(0)] >> ELSE <<>>
Created(t, p) == [t EXCEPT ![p].has = TRUE, ![p].f = FreshFields(t[p].k)]
Assigned(t, p, d) == [t EXCEPT ![p].has = TRUE, ![p].f = NormFields(d.f)]
Changed(t, p, f) == [t EXCEPT ![p].f = MergeFields(@, NormFields(<<f>>))]
Grown(t, p, d) == Below(p, d) @@ [x \in { y \in DOMAIN t : ~AtOrBelow(p, y) } |-> t[x]]

(* What a message speaks of *)
RECURSIVE MentionedIn(_, _)
MentionedIn(p, d) == {p} \cup UNION { MentionedIn(Append(p, NumOf(d.ch[j])), d.ch[j]) : j \in 1..Len(d.ch) }
Mentioned(els) == UNION { MentionedIn(IF els[j].q THEN els[j].p ELSE <<NumOf(els[j])>>, els[j]) : j \in 1..Len(els) }

(* The tree as it is encoded *)
Nth(S) == SetToSortSeq(S, LAMBDA x, y : x[Len(x)] < y[Len(y)])
RECURSIVE DescOf(_, _)
DescOf(t, p) ==
    LET n == t[p]
        ks == Nth(Kids(t, p)) IN
    [k |-> n.k, q |-> n.q, p |-> IF n.q THEN p ELSE <<p[Len(p)]>>, has |-> n.has, f |-> n.f,
     ch |-> [j \in 1..Len(ks) |-> DescOf(t, ks[j])], tg |-> n.tg, sr |-> n.sr, cn |-> n.cn]
TreeDesc(t) == LET ks == Nth(Kids(t, <<>>)) IN [j \in 1..Len(ks) |-> DescOf(t, ks[j])]

RECURSIVE Plainly(_)
Plainly(d) == [d EXCEPT !.f = NormFields(@), !.cn = Conns(@), !.ch = ByNumber([j \in 1..Len(d.ch) |-> Plainly(d.ch[j])], NumOf)]

-----------------------------------------------------------------------------
(* Requests for the directory of what is at p; <<>> is the root. *)

GetDir == [El0 EXCEPT !.k = "cmd", !.p = <<32>>, !.has = TRUE, !.f = <<[k |-> 0, t |-> "int", v |-> SmallInt8(-1)]>>]

RECURSIVE Chain(_, _, _)
Chain(t, p, n) == \* from the n-th element of p on
    [El0 EXCEPT !.k = t[SubSeq(p, 1, n)].k, !.p = <<p[n]>>,
                !.ch = <<IF n = Len(p) THEN GetDir ELSE Chain(t, p, n + 1)>>]

Qualified(t, p) == [El0 EXCEPT !.k = t[p].k, !.q = TRUE, !.p = p, !.ch = <<GetDir>>]

DirectoryRequests(t, p) ==
    IF p = <<>> THEN { <<GetDir>> } ELSE { <<Chain(t, p, 1)>>, <<Qualified(t, p)>> }

-----------------------------------------------------------------------------
(* Paths of objects, however they were put together: objects have a number, *)
(* a parent par (0: none), and a path of their own if q.                    *)
RECURSIVE PathOf(_, _)
PathOf(o, i) == IF o[i].q THEN o[i].p
                ELSE IF o[i].par = 0 THEN <<o[i].num>>
                ELSE Append(PathOf(o, o[i].par), o[i].num)
RECURSIVE AboveOrAt(_, _, _)
AboveOrAt(o, a, i) == i # 0 /\ (a = i \/ AboveOrAt(o, a, o[i].par))
-----------------------------------------------------------------------------
(* Listeners: ls is the set of <<listener, id of the element>>, 0 the root. *)
SeqToSet(s) == { s[j] : j \in 1..Len(s) }

(* Calls of listeners.  w: [ls, due, may, bad]; due and may are bags, as     *)
(* sequences, of [l, id, g, kids].                                          *)
RemoveOne(s, x) == LET i == CHOOSE j \in 1..Len(s) : s[j] = x IN SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
In(x, s) == \E j \in 1..Len(s) : s[j] = x
Dues(l, id, notices) == LET own == SelectSeq(notices, LAMBDA n : n.id = id) IN
    [j \in 1..Len(own) |-> [l |-> l, id |-> id, g |-> own[j].g, kids |-> own[j].kids]]
Others(s, l, id) == SelectSeq(s, LAMBDA x : x.l # l \/ x.id # id)

Heard(notices, w, c) ==
    IF w.bad # "" THEN w
    ELSE CASE c.do = "add" -> [w EXCEPT !.ls = @ \cup { <<c.l, c.id>> },
                                        !.may = IF <<c.l, c.id>> \in w.ls THEN @ ELSE Others(@, c.l, c.id) \o Dues(c.l, c.id, notices)]
           [] c.do = "remove" -> [w EXCEPT !.ls = @ \ { <<c.l, c.id>> },
                                           !.due = Others(@, c.l, c.id), !.may = Others(@, c.l, c.id)]
           [] c.err /\ ~w.err -> [w EXCEPT !.bad = "a listener is called with an error"]
           [] OTHER ->
              LET x == [l |-> c.l, id |-> c.id, g |-> c.g, kids |-> SeqToSet(c.kids)] IN
              IF <<c.l, c.id>> \notin w.ls THEN [w EXCEPT !.bad = "a listener that is not there is called"]
              ELSE IF In(x, w.due) THEN [w EXCEPT !.due = RemoveOne(@, x)]
              ELSE IF In(x, w.may) THEN [w EXCEPT !.may = RemoveOne(@, x)]
              ELSE IF \E j \in 1..Len(w.due) : w.due[j].l = c.l /\ w.due[j].id = c.id
                   THEN [w EXCEPT !.bad = "a listener is called before the change is visible"]
              ELSE [w EXCEPT !.bad = "a listener is called without an update"]

Awaited(ls, notices, refused) ==
    [ls |-> ls, err |-> refused, may |-> <<>>, bad |-> "",
     due |-> FoldLeft(LAMBDA acc, x : acc \o Dues(x[1], x[2], notices), <<>>, SetToSeq(ls))]

Hear(ls0, notices, calls, refused) ==
    LET
        w == FoldLeft(LAMBDA x, c : Heard(notices, x, c),
                      Awaited(ls0, notices, refused),
                      calls) IN
    IF w.bad = "" /\ w.due # <<>> THEN [w EXCEPT !.bad = "a listener is not called"] ELSE w
=============================================================================
