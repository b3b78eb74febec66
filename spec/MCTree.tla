------------------------------- MODULE MCTree -------------------------------
(***************************************************************************)
(* All short histories of a tree: messages that add, update, conflict and  *)
(* come too early, in both forms; listeners that come, go and react; and   *)
(* objects that are put together and moved.  The properties are checked on *)
(* the specification, and every transition is printed as a script for the  *)
(* real code.  PROP chooses which of it:                                   *)
(*    C14, C15, C18  messages (and what is asked afterwards)               *)
(*    C17            listeners                                             *)
(*    C16            objects                                               *)
(***************************************************************************)
EXTENDS EmberTree, Json, IOUtils

Deep == IOEnv.TIER = "thorough"
Prop == IOEnv.PROP

S(k, v) == [k |-> k, t |-> "str", v |-> v]
I(k, n) == [k |-> k, t |-> "int", v |-> SmallInt8(n)]
Bo(k, n) == [k |-> k, t |-> "bool", v |-> <<n>>]
El(kind, q, p) == [El0 EXCEPT !.k = kind, !.q = q, !.p = p]
With(e, f) == [e EXCEPT !.has = TRUE, !.f = f]
Over(e, ch) == [e EXCEPT !.ch = ch]
Conn(t, s, o, d) == [t |-> t, s |-> s, o |-> o, d |-> d]

Node(n) == El("node", FALSE, <<n>>)
Param(n) == El("param", FALSE, <<n>>)
QNode(p) == El("node", TRUE, p)
QParam(p) == El("param", TRUE, p)

Universe == <<
    << With(Node(1), <<S(0, <<97>>)>>) >>,
    << With(Node(1), <<S(1, <<98>>), Bo(2, 1)>>) >>,
    << Over(With(Node(1), <<S(0, <<99>>), Bo(2, 0)>>), <<Node(1)>>) >>,
    << With(QNode(<<1>>), <<S(0, <<100>>)>>) >>,
    << With(QNode(<<1, 1>>), <<S(0, <<101>>), Bo(3, 0)>>) >>,
    << With(QParam(<<1, 2>>), <<S(0, <<102>>), I(2, 5)>>) >>,
    << Over(Node(1), <<With(Param(2), <<S(2, <<120>>), I(3, -1), [k |-> 18, t |-> "oid", v |-> <<1, 2>>]>>)>>) >>,
    << With(Param(1), <<S(0, <<103>>)>>) >>,
    << Over(Node(1), <<Param(1), With(Param(2), <<I(4, 300)>>)>>) >>,
    << [With(El("matrix", TRUE, <<1, 3>>), <<S(0, <<109>>), I(4, 5), [k |-> 10, t |-> "labels", v |-> <<2, 1, 2, 1, 76>>]>>)
            EXCEPT !.tg = <<1, 2>>, !.sr = <<3>>, !.cn = <<Conn(1, <<3>>, 0, 0)>>] >>,
    << Over(Node(1), <<[El("matrix", FALSE, <<3>>) EXCEPT !.cn = <<Conn(1, <<>>, 2, 1), Conn(2, <<3>>, 1, 0)>>]>>) >>,
    << [With(El("matrix", TRUE, <<1, 3>>), <<I(2, 1), I(5, 7), [k |-> 10, t |-> "labels", v |-> <<0, 1, 77>>]>>) EXCEPT !.tg = <<7>>] >>,
    << With(QNode(<<2, 1, 1>>), <<S(0, <<104>>)>>) >>,
    << Over(Node(2), <<Over(Node(1), <<Param(6)>>)>>) >>,
    << Over(QNode(<<1, 1, 1>>), <<With(Param(5), <<Bo(2, 1)>>)>>) >>,
    << Node(3), QParam(<<3, 4>>), QParam(<<4, 1>>), With(Node(3), <<S(1, <<105>>)>>) >>,
    << Over(Node(2), <<With(El("func", FALSE, <<4>>), <<S(0, <<106>>), [k |-> 2, t |-> "tuples", v |-> <<1, 1, 97>>]>>)>>) >>,
    << With(El("func", TRUE, <<2, 4>>), <<S(1, <<107>>), [k |-> 3, t |-> "tuples", v |-> <<2, 0, 1, 1, 98>>]>>) >>,
    <<>>
>>

(* The messages among which listeners come and go *)
Heardof == <<
    << With(Node(1), <<S(0, <<97>>)>>) >>,
    << Over(With(Node(1), <<S(0, <<98>>)>>), <<With(Node(1), <<S(0, <<99>>)>>)>>) >>,
    << With(QNode(<<1, 1>>), <<S(1, <<100>>)>>) >>,
    << QParam(<<1, 2>>), QParam(<<1, 3>>) >>,
    << QParam(<<1, 1, 4>>), QParam(<<1, 4>>) >>,
    << Over(Node(1), <<Param(1)>>), With(Node(1), <<S(1, <<101>>)>>) >>,
    << Node(2) >>
>>
FirstTree == << Over(Node(1), <<Node(1)>>) >>

Msgs == IF Prop = "C17" THEN Heardof ELSE Universe
Depth == CASE Prop = "C16" -> IF Deep THEN 6 ELSE 4
           [] Prop = "C17" -> IF Deep THEN 4 ELSE 3
           [] OTHER -> IF Deep THEN 4 ELSE IF Prop = "C18" THEN 2 ELSE 3

(* Listeners 1 and 2, at the root and at two elements; what 1 does when called *)
Places == { <<>>, <<1>>, <<1, 1>> }
Reactions == { <<>> } \cup { <<[do |-> "react", l |-> 1, what |-> w, l2 |-> l, pos |-> p]>> :
                             w \in {"listen", "unlisten"}, l \in {1, 2}, p \in IF Deep THEN Places ELSE {<<>>, <<1>>} }

Objects == << [num |-> 1, q |-> FALSE, p |-> <<>>, par |-> 0], [num |-> 2, q |-> FALSE, p |-> <<>>, par |-> 0],
              [num |-> 3, q |-> FALSE, p |-> <<>>, par |-> 0], [num |-> 7, q |-> TRUE, p |-> <<5, 6, 7>>, par |-> 0],
              [num |-> 4, q |-> FALSE, p |-> <<>>, par |-> 0] >>

VARIABLES t,    \* the tree
          ls,   \* the listeners
          w,    \* what listeners still have to hear of the last message
          ns,   \* all that the message told
          told, \* how often each listener at each place was called for it
          o,    \* the objects
          react,
          hist  \* the script so far
vars == <<t, ls, w, ns, told, o, react, hist>>

Silent == [ls |-> {}, err |-> FALSE, may |-> <<>>, bad |-> "", due |-> <<>>]

Init ==
    /\ t = IF Prop = "C17" THEN Apply(NoTree, FirstTree).t ELSE NoTree
    /\ ls = {} /\ w = Silent /\ ns = <<>> /\ told = <<>>
    /\ o = IF Prop = "C16" THEN Objects ELSE <<>>
    /\ \E r \in (IF Prop = "C17" THEN Reactions ELSE {<<>>}) : react = r
    /\ hist = <<>>

Steps == SelectSeq(hist, LAMBDA s : s.do \in {"msg", "listen", "unlisten", "adopt", "orphan"})
Quiet == w.due = <<>>

Receive(j) ==
    LET a == Apply(t, Msgs[j])
        n == [x \in 1..Len(a.notices) |-> [id |-> a.notices[x].pos, g |-> a.notices[x].g, kids |-> a.notices[x].kids]] IN
    /\ t' = a.t
    /\ ns' = n
    /\ w' = IF Prop = "C17" THEN Awaited(ls, n, a.refused) ELSE w
    /\ told' = <<>>
    /\ hist' = Append(hist, [do |-> "msg", els |-> Msgs[j]])
    /\ UNCHANGED <<ls, o, react>>

(* A listener is called; 1 does what it does. *)
Call ==
    \E j \in 1..Len(w.due) :
    LET c == w.due[j]
        w1 == Heard(ns, w, [do |-> "call", l |-> c.l, id |-> c.id, g |-> c.g, kids |-> SetToSeq(c.kids), err |-> FALSE])
        w2 == IF c.l = 1 /\ react # <<>> /\ react[1].pos \in DOMAIN t \cup {<<>>}
              THEN Heard(ns, w1, [do |-> IF react[1].what = "listen" THEN "add" ELSE "remove", l |-> react[1].l2, id |-> react[1].pos])
              ELSE w1 IN
    /\ w' = w2
    /\ ls' = w2.ls
    /\ told' = Append(told, <<c.l, c.id>>)
    /\ UNCHANGED <<t, ns, o, react, hist>>

Listen(l, p) == ls' = ls \cup { <<l, p>> } /\ hist' = Append(hist, [do |-> "listen", l |-> l, pos |-> p])
Unlisten(l, p) == ls' = ls \ { <<l, p>> } /\ hist' = Append(hist, [do |-> "unlisten", l |-> l, pos |-> p])

Adopt(i, j) == /\ ~AboveOrAt(o, i, j)
               /\ \A x \in 1..Len(o) : x # i => ~(o[x].par = j /\ o[x].num = o[i].num)
               /\ o' = [o EXCEPT ![i].par = j]
               /\ hist' = Append(hist, [do |-> "adopt", id |-> i, par |-> j])
Orphan(i) == /\ o[i].par # 0
             /\ o' = [o EXCEPT ![i].par = 0]
             /\ hist' = Append(hist, [do |-> "orphan", id |-> i, par |-> 0])

Next ==
    \/ ~Quiet /\ Call
    \/ /\ Quiet /\ Len(Steps) < Depth
       /\ \/ Prop # "C16" /\ \E j \in 1..Len(Msgs) : Receive(j)
          \/ /\ Prop = "C17"
             /\ \E l \in {1, 2}, p \in Places : Listen(l, p) \/ (<<l, p>> \in ls /\ Unlisten(l, p))
             /\ UNCHANGED <<t, w, ns, told, o, react>>
          \/ /\ Prop = "C16"
             /\ \E i \in 1..Len(o) : Orphan(i) \/ \E j \in 1..Len(o) : Adopt(i, j)
             /\ UNCHANGED <<t, ls, w, ns, told, react>>

Spec == Init /\ [][Next]_vars


View == <<t, ls, w, ns, told, o, react>>

-----------------------------------------------------------------------------
(* C14, C15 *)

NoOrphans == \A p \in DOMAIN t : Len(p) > 1 => Parent(p) \in DOMAIN t

LastMsg == hist'[Len(hist')].els
Received == hist' # hist /\ hist'[Len(hist')].do = "msg"

(* Nothing is lost, and nothing changes its kind. *)
KeptAt(a, b) ==
    /\ b.k = a.k /\ b.q = a.q
    /\ a.has => b.has
    /\ { a.f[j].k : j \in 1..Len(a.f) } \subseteq { b.f[j].k : j \in 1..Len(b.f) }
    /\ { a.cn[j].t : j \in 1..Len(a.cn) } \subseteq { b.cn[j].t : j \in 1..Len(b.cn) }
KeptIn(a, b) == \A p \in DOMAIN a : p \in DOMAIN b /\ KeptAt(a[p], b[p])
Kept == [][ KeptIn(t, t') ]_t

Untouched == [][ Received => \A p \in DOMAIN t : p \notin Mentioned(LastMsg) => t'[p] = t[p] ]_vars
NothingElse == [][ Received => DOMAIN t' \ DOMAIN t \subseteq Mentioned(LastMsg) ]_vars

(* The same message again changes nothing. *)
Again == [][ Received => Apply(t', LastMsg).t = t' ]_vars

(* One by one in qualified form, without children of their own *)
RECURSIVE OneByOne(_, _)
OneByOne(p, d) ==
    FoldLeft(LAMBDA acc, x : acc \o x, << [d EXCEPT !.q = TRUE, !.p = p, !.ch = <<>>] >>,
             [j \in 1..Len(d.ch) |-> OneByOne(Append(p, NumOf(d.ch[j])), d.ch[j])])
QualifiedForm(els) ==
    Concat([j \in 1..Len(els) |-> OneByOne(IF els[j].q THEN els[j].p ELSE <<NumOf(els[j])>>, els[j])])
Formless(tree) == [p \in DOMAIN tree |-> [tree[p] EXCEPT !.q = FALSE]]
EitherForm == [][ Received /\ ~Apply(t, LastMsg).refused
                     => Formless(Apply(t, QualifiedForm(LastMsg)).t) = Formless(t') ]_vars

(* A tree that is encoded and decoded elsewhere is the same tree. *)
Same == Apply(NoTree, TreeDesc(t)).t = t

(* C17: a listener that is there before and after is called once per notice, *)
(* one that is not there before nor after not at all, unless 1 moves it.     *)
Calls(l, p) == Cardinality({ j \in 1..Len(told) : told[j] = <<l, p>> })
Notices(p) == Cardinality({ j \in 1..Len(ns) : ns[j].id = p })
Moved(l, p) == react # <<>> /\ react[1].l2 = l /\ react[1].pos = p
AllHeard == /\ w.bad = ""
            /\ (Prop = "C17" /\ Quiet /\ hist # <<>> /\ hist[Len(hist)].do = "msg") =>
               \A l \in {1, 2}, p \in Places : ~Moved(l, p) =>
                  Calls(l, p) = IF <<l, p>> \in ls THEN Notices(p) ELSE 0

(* C16: paths differ as long as positions do, and children extend their parents. *)
Positions ==
    \A i \in 1..Len(o) : ~o[i].q =>
       PathOf(o, i) = IF o[i].par = 0 THEN <<o[i].num>> ELSE Append(PathOf(o, o[i].par), o[i].num)
(* Moving one moves what is below it and nothing else. *)
Followed == [][ o' # o => \A i \in 1..Len(o) :
                  ~AboveOrAt(o, hist'[Len(hist')].id, i) => PathOf(o', i) = PathOf(o, i) ]_vars

(* C18: a request names one element and carries one command. *)
RECURSIVE Commands(_)
Commands(d) == IF d.k = "cmd" THEN 1 ELSE FoldLeft(LAMBDA acc, c : acc + Commands(c), 0, d.ch)
Requests == (Prop = "C18") =>
    \A p \in DOMAIN t : \A r \in DirectoryRequests(t, p) :
        Len(r) = 1 /\ Commands(r[1]) = 1 /\ p \in Mentioned(r) /\ \A x \in Mentioned(r) : Len(x) <= Len(p) + 1

-----------------------------------------------------------------------------
(* Scripts *)

Near == LET d == DOMAIN t' IN
    (d \cup { Append(p, 1) : p \in d } \cup { Append(Parent(p), 8) : p \in d } \cup { <<1, 1, 1, 5, 1>>, <<9, 1>>, <<>> })

Asked == CASE Prop = "C15" -> SetToSeq({ [do |-> "find", pos |-> p] : p \in Near })
           [] Prop = "C18" -> SetToSeq({ [do |-> "getdir", pos |-> p, l |-> Len(p) % 2, form |-> f] :
                                         p \in {<<>>} \cup DOMAIN t', f \in {"any", "qualified"} }) \o <<[do |-> "enc"]>>
           [] Prop = "C14" -> <<[do |-> "enc"]>>
           [] OTHER -> <<>>

Emit ==
    CASE hist' = hist -> TRUE
      [] Prop = "C16" -> PrintT("CASE " \o ToJson([objs |-> o, steps |-> hist']))
      [] Prop = "C17" -> hist'[Len(hist')].do = "msg"
                            => PrintT("CASE " \o ToJson(<<[do |-> "msg", els |-> FirstTree]>> \o react \o hist'))
      [] OTHER -> PrintT("CASE " \o ToJson(hist' \o Asked))
=============================================================================
