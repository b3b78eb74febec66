----------------------------- MODULE TraceTree -----------------------------
(***************************************************************************)
(* C14 - C18, C34: what real trees did.                                         *)
(*   msg     in: the message decoded; calls: of listeners, and what these  *)
(*           did; dump: the tree afterwards                                *)
(*   listen, unlisten   listener l, id of the element, 0 for the root      *)
(*   nowhere in: a message with one element whose path is empty            *)
(*   has     l, is: whether the root says that it has this listener        *)
(*   getdir  id, l, form, out: the request                                 *)
(*   find    path, el, par: ids, -1 for none                               *)
(*   enc     out: the tree encoded                                         *)
(*   edit    pos, what: what the program does to the element there; d: the *)
(*           element or contents, f: the field; none: there is nothing new *)
(*   obj, adopt, orphan, paths: objects and their paths                    *)
(* Elements have an id, the same as long as they are the same object.      *)
(***************************************************************************)
EXTENDS EmberTree, Judge

TFresh(e) == [lost |-> FALSE, t |-> NoTree, id |-> NoTree, ls |-> {}, o |-> <<>>]

(* The tree that was dumped *)
DumpOk(st, t, d) ==
    LET at == [x \in { d[j].pos : j \in 1..Len(d) } |-> (CHOOSE y \in SeqToSet(d) : y.pos = x)] IN
    IF Cardinality(DOMAIN at) # Len(d) THEN "an element is there twice"
    ELSE IF DOMAIN at \ DOMAIN t # {} THEN "elements that nobody sent"
    ELSE IF DOMAIN t \ DOMAIN at # {} THEN "elements are missing"
    ELSE IF \E p \in DOMAIN t : LET n == t[p] IN
            \/ at[p].k # n.k \/ at[p].has # n.has
            \/ at[p].g # (IF n.has THEN Got(n.k, n.f) ELSE <<>>)
         THEN "the contents of an element are not those sent"
    ELSE IF \E p \in DOMAIN t : LET n == t[p] IN at[p].tg # n.tg \/ at[p].sr # n.sr \/ Conns(at[p].cn) # n.cn
         THEN "targets, sources or connections are not those sent"
    ELSE IF \E p \in DOMAIN t : at[p].path # p THEN "the path of an element is not its position"
    ELSE IF \E p \in DOMAIN st.id : at[p].id # st.id[p] THEN "an element was replaced by another object"
    ELSE IF Cardinality({ at[p].id : p \in DOMAIN at }) # Len(d) THEN "one object in two places"
    ELSE ""
Ids(d) == [x \in { d[j].pos : j \in 1..Len(d) } |-> (CHOOSE y \in SeqToSet(d) : y.pos = x).id]

(* A message that ends early; some may be decoded nevertheless: the finding outermost-padded of C07 *)
EndsEarly(m, b) == m.st \in {"trunc", "cut"}
                   /\ LET c == CutAt(b, 1) IN ~(Constructed(c.t) /\ c.miss > 0 /\ c.miss <= c.left)

JudgeMsg(st, e) ==
    LET m == Msg(e.in) IN
    IF e.panic # "" THEN Bad(Lost, "panics: " \o e.panic)
    ELSE IF EndsEarly(m, e.in)
    THEN LET why == DumpOk(st, st.t, e.dump) IN
         IF ~e.err THEN Bad(Lost, "a message that ends early is taken for a whole one")
         ELSE IF why # "" THEN Bad(Lost, "part of a message that ends early is applied: " \o why)
         ELSE IF \E j \in 1..Len(e.calls) : e.calls[j].do = "call" THEN Bad(Lost, "a listener is called without an update")
         ELSE Good(st, "msg ends early")
    ELSE IF m.st # "ok" \/ ~Plain(m.v) THEN Good(Lost, "free")
    ELSE LET a == Apply(st.t, m.v)
             why == DumpOk(st, a.t, e.dump)
             ids == Ids(e.dump)
             ns == [j \in 1..Len(a.notices) |->
                      LET n == a.notices[j] IN [id |-> IF n.pos = <<>> THEN 0 ELSE ids[n.pos], g |-> n.g, kids |-> n.kids]] IN
         IF e.err /\ ~a.refused THEN Bad(Lost, "a message is refused")
         ELSE IF why # "" THEN Bad(Lost, why)
         ELSE LET w == Hear(st.ls, ns, e.calls, a.refused) IN
              IF w.bad # "" THEN Bad(Lost, w.bad)
              ELSE Good([st EXCEPT !.t = a.t, !.id = ids, !.ls = w.ls],
                        IF a.refused THEN "msg refused" ELSE IF a.t = st.t THEN "msg nothing new"
                        ELSE IF DOMAIN a.t = DOMAIN st.t THEN "msg update"
                        ELSE IF Len(a.notices) > 1 THEN "msg update and add" ELSE "msg add")

(* An element without a path has no place; the message may be refused. *)
NowhereOk(it) ==
    /\ it.t = Application(0) /\ One(it) /\ it.k[1].t = Application(11) /\ One(it.k[1])
    /\ LET x == it.k[1].k[1] IN
       /\ x.t = Context(0) /\ One(x) /\ IsQTag(x.k[1].t) /\ Len(x.k[1].k) >= 1
       /\ LET y == x.k[1].k[1] IN y.t = Context(0) /\ One(y) /\ y.k[1].t = TagRelOID /\ y.k[1].c = <<>>
JudgeNowhere(st, e) ==
    LET why == DumpOk(st, st.t, e.dump)
        calls == SelectSeq(e.calls, LAMBDA c : c.do = "call" /\ c.id # 0) IN
    IF Single(e.in, NowhereOk, ItemTag).st # "ok" THEN Bad(Lost, "the driver gave the element a place")
    ELSE IF e.panic # "" THEN Bad(Lost, "panics: " \o e.panic)
    ELSE IF why # "" THEN Bad(Lost, "an element without a path: " \o why)
    ELSE IF calls # <<>> THEN Bad(Lost, "a listener is called without an update")
    ELSE Good(st, "nowhere")

JudgeHas(st, e) ==
    IF e.panic # "" THEN Bad(Lost, "panics: " \o e.panic)
    ELSE IF e.is = (<<e.l, 0>> \in st.ls) THEN Good(st, IF e.is THEN "has" ELSE "has not")
    ELSE Bad(Lost, "the root has other listeners than it says")

PosOf(st, i) == IF i = 0 THEN <<>> ELSE CHOOSE p \in DOMAIN st.id : st.id[p] = i

JudgeDir(st, e) ==
    LET m == Msg(e.out)
        p == PosOf(st, e.id)
        ok == IF e.form = "qualified" /\ p # <<>> THEN { <<Qualified(st.t, p)>> } ELSE DirectoryRequests(st.t, p)
        ls == IF e.l = 0 THEN st.ls ELSE st.ls \cup { <<e.l, e.id>> } IN
    IF e.panic # "" THEN Bad(Lost, "panics: " \o e.panic)
    ELSE IF e.err THEN Bad(Lost, "no request")
    ELSE IF m.st # "ok" \/ m.v \notin ok THEN Bad(Lost, "the request is not for the directory of this element")
    ELSE LET why == DumpOk(st, st.t, e.dump) IN
         IF why # "" THEN Bad(Lost, "after GetDirectory: " \o why)
         ELSE Good([st EXCEPT !.ls = ls],
                   "getdir " \o (IF e.id = 0 THEN "root" ELSE IF m.v[1].q THEN "qualified" ELSE ToString(Len(p))))

JudgeFind(st, e) ==
    LET there == e.path \in DOMAIN st.id
        up == IF Len(e.path) < 2 THEN -1 ELSE IF Parent(e.path) \in DOMAIN st.id THEN st.id[Parent(e.path)] ELSE -1 IN
    IF e.panic # "" THEN Bad(st, "panics: " \o e.panic)
    ELSE IF there /\ e.el = st.id[e.path] /\ e.par = up THEN Good(st, "found")
    ELSE IF ~there /\ e.el = -1 /\ e.par \in {-1, up} THEN Good(st, "not found")
    ELSE Bad(st, "looking up a path finds something else")

JudgeEncTree(st, e) ==
    LET m == Msg(e.out) IN
    IF e.panic # "" THEN Bad(st, "panics: " \o e.panic)
    ELSE IF ~e.err /\ m.st = "ok" /\ ByNumber([j \in 1..Len(m.v) |-> Plainly(m.v[j])], NumOf) = TreeDesc(st.t)
    THEN Good(st, "enc") ELSE Bad(st, "encoding the tree gives another one")

JudgeEdit(st, e) ==
    LET p == IF e.what = "grow" THEN Append(e.pos, NumOf(e.d[1])) ELSE e.pos
        t == CASE e.what = "create" -> IF e.none THEN st.t ELSE Created(st.t, p)
               [] e.what = "assign" -> Assigned(st.t, p, e.d[1])
               [] e.what = "again" -> st.t
               [] e.what = "change" -> Changed(st.t, p, e.f[1])
               [] OTHER -> Grown(st.t, p, e.d[1])
        id == IF e.what = "grow" THEN [x \in { y \in DOMAIN st.id : ~AtOrBelow(p, y) } |-> st.id[x]] ELSE st.id
        why == DumpOk([st EXCEPT !.id = id], t, e.dump)
        ids == Ids(e.dump)
        n == NoticeOf(t, p)
        ns == IF e.what \in {"assign", "again"} THEN << [id |-> ids[p], g |-> n.g, kids |-> n.kids] >> ELSE <<>>
        \* the parent of a new element may tell its listeners
        up == IF e.what # "grow" THEN -1 ELSE IF e.pos = <<>> THEN 0 ELSE ids[e.pos]
        calls == SelectSeq(e.calls, LAMBDA c : c.do # "call" \/ c.id # up) IN
    IF e.panic # "" THEN Bad(Lost, "panics: " \o e.panic)
    ELSE IF e.what = "create" /\ e.none /\ st.t[p].k # "matrix" THEN Bad(Lost, "no contents are created")
    ELSE IF e.what = "create" /\ ~e.none /\ e.of # st.t[p].k THEN Bad(Lost, "contents are created for an element of another kind")
    ELSE IF ~e.same THEN Bad(Lost, "what is returned is not what the element holds")
    ELSE IF e.err THEN Bad(Lost, "an edit is refused")
    ELSE IF why # "" THEN Bad(Lost, "after an edit: " \o why)
    ELSE IF e.what = "grow" /\ \E x \in DOMAIN st.id : AtOrBelow(p, x) /\ \E y \in DOMAIN ids : ids[y] = st.id[x]
         THEN Bad(Lost, "the element that was replaced is still there")
    ELSE LET w == Hear(st.ls, ns, calls, FALSE) IN
         IF w.bad # "" THEN Bad(Lost, w.bad)
         ELSE Good([st EXCEPT !.t = t, !.id = ids, !.ls = w.ls],
                   "edit " \o e.what \o (IF e.what = "grow" /\ p \in DOMAIN st.t THEN " again" ELSE ""))

JudgePaths(st, e) ==
    IF e.panic # "" THEN Bad(st, "panics: " \o e.panic)
    ELSE IF \E j \in 1..Len(e.seen) : e.seen[j].path # PathOf(st.o, e.seen[j].id) THEN Bad(st, "the path of an object is not its position")
    ELSE IF \E j \in 1..Len(e.old) : e.old[j].was # e.old[j].is THEN Bad(st, "a path changes after it was returned")
    ELSE Good(st, "paths")

TreeJudgement(st, e) ==
    CASE e.op = "msg" -> JudgeMsg(st, e)
      [] e.op = "listen" -> Good([st EXCEPT !.ls = @ \cup { <<e.l, e.id>> }], "listen")
      [] e.op = "unlisten" -> Good([st EXCEPT !.ls = @ \ { <<e.l, e.id>> }], "unlisten")
      [] e.op = "nowhere" -> JudgeNowhere(st, e)
      [] e.op = "has" -> JudgeHas(st, e)
      [] e.op = "getdir" -> JudgeDir(st, e)
      [] e.op = "find" -> JudgeFind(st, e)
      [] e.op = "enc" -> JudgeEncTree(st, e)
      [] e.op = "together" ->
            IF e.panic # "" THEN Bad(st, "panics: " \o e.panic)
            ELSE IF e.still # e.updates THEN Bad(st, "a listener is not called once per update while others come and go")
            ELSE IF e.gone # 0 \/ e.after # 0 THEN Bad(st, "a removed listener is called")
            ELSE IF e.moving > 2 * e.updates THEN Bad(st, "a listener is called without an update")
            ELSE Good(st, "together")
      [] e.op = "obj" -> Good([st EXCEPT !.o = Append(@, [num |-> e.num, q |-> e.q, p |-> e.p, par |-> 0])], "obj")
      [] e.op = "adopt" -> IF e.panic # "" THEN Bad(Lost, "panics: " \o e.panic)
                           ELSE IF AboveOrAt(st.o, e.id, e.par) THEN Good(Lost, "circle")
                           ELSE Good([st EXCEPT !.o[e.id].par = e.par], "adopt")
      [] e.op = "orphan" -> IF e.panic # "" THEN Bad(Lost, "panics: " \o e.panic) ELSE Good([st EXCEPT !.o[e.id].par = 0], "orphan")
      [] e.op = "paths" -> JudgePaths(st, e)
      [] e.op = "edit" -> JudgeEdit(st, e)
      [] OTHER -> Assert(FALSE, <<"unknown event", e>>)
=============================================================================
