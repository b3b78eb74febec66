------------------------------- MODULE MCEdit -------------------------------
(***************************************************************************)
(* C34: all short histories of a tree in which messages arrive and the     *)
(* program edits: new contents, others in their place, a field, a new      *)
(* element.  What an edit leads to is said here a second time, in terms of *)
(* messages and positions (Said); flawed editors must be told from the     *)
(* correct one by it.                                                      *)
(***************************************************************************)
EXTENDS EmberTree, Json, IOUtils

Deep == IOEnv.TIER = "thorough"

S(k, v) == [k |-> k, t |-> "str", v |-> v]
I(k, n) == [k |-> k, t |-> "int", v |-> SmallInt8(n)]
Bo(k, n) == [k |-> k, t |-> "bool", v |-> <<n>>]
El(kind, q, p) == [El0 EXCEPT !.k = kind, !.q = q, !.p = p]
With(e, f) == [e EXCEPT !.has = TRUE, !.f = f]
Over(e, ch) == [e EXCEPT !.ch = ch]

Msgs == <<
    << Over(With(El("node", FALSE, <<1>>), <<S(0, <<97>>), Bo(2, 1)>>), <<El("node", FALSE, <<1>>)>>) >>,
    << With(El("param", TRUE, <<1, 2>>), <<S(0, <<98>>), I(2, 5)>>) >>,
    << With(El("node", TRUE, <<1, 1>>), <<S(1, <<99>>)>>), El("param", TRUE, <<1, 1, 2>>) >>,
    << [With(El("matrix", TRUE, <<1, 3>>), <<I(2, 1), I(4, 5)>>) EXCEPT !.tg = <<1, 2>>] >>,
    << With(El("func", FALSE, <<2>>), <<S(0, <<106>>), [k |-> 2, t |-> "tuples", v |-> <<1, 1, 97>>]>>) >>
>>

OfKind(k) == CASE k = "node" -> With(El("node", FALSE, <<1>>), <<S(1, <<110>>), Bo(3, 0)>>)
               [] k = "param" -> With(El("param", FALSE, <<1>>), <<S(1, <<112>>), I(3, -1)>>)
               [] k = "matrix" -> With(El("matrix", FALSE, <<1>>), <<S(0, <<109>>), I(2, 2), I(3, 1)>>)
               [] OTHER -> With(El("func", FALSE, <<1>>), <<S(1, <<102>>)>>)
NewField(k) == S(0, <<120>>)
News == << With(El("node", FALSE, <<1>>), <<S(0, <<121>>)>>),
           Over(El("node", FALSE, <<2>>), <<With(El("param", FALSE, <<2>>), <<I(2, 7)>>)>>),
           Over(El("node", FALSE, <<2>>), <<El("node", FALSE, <<3>>)>>),
           With(El("matrix", FALSE, <<3>>), <<S(0, <<122>>), I(2, 0), I(3, 1)>>) >>

Flaws == {"none", "create merges", "assign merges", "change forgets", "grow merges", "grow forgets", "beside"}

VARIABLES t, before, last, flaw, hist
vars == <<t, before, last, flaw, hist>>

Nothing == [do |-> "none", pos |-> <<>>]
Init == t = NoTree /\ before = NoTree /\ last = Nothing /\ flaw \in Flaws /\ hist = <<>>

Does(s, t1) == t' = t1 /\ before' = t /\ last' = s /\ hist' = Append(hist, s) /\ UNCHANGED flaw

Receive(j) == Does([do |-> "msg", els |-> Msgs[j]], Apply(t, Msgs[j]).t)

Beside(t1, p) == LET o == Parent(p) IN IF o \in DOMAIN t1 THEN [t1 EXCEPT ![o].has = TRUE, ![o].f = MergeFields(@, <<S(1, <<33>>)>>)] ELSE t1

Create(p) == Does([do |-> "create", pos |-> p],
                  IF flaw = "create merges" THEN [t EXCEPT ![p].has = TRUE, ![p].f = MergeFields(FreshFields(t[p].k), @)] ELSE Created(t, p))
Assign(p) == LET d == OfKind(t[p].k) IN
             Does([do |-> "assign", pos |-> p, els |-> <<d>>],
                  CASE flaw = "assign merges" -> [t EXCEPT ![p] = Merge(@, d)]
                    [] flaw = "beside" -> Beside(Assigned(t, p, d), p)
                    [] OTHER -> Assigned(t, p, d))
Change(p) == LET f == NewField(t[p].k) IN
             Does([do |-> "change", pos |-> p, f |-> <<f>>],
                  IF flaw = "change forgets" THEN [t EXCEPT ![p].f = NormFields(<<f>>)] ELSE Changed(t, p, f))
Again(p) == Does([do |-> "again", pos |-> p], Assigned(t, p, [OfKind(t[p].k) EXCEPT !.f = t[p].f]))
Grow(p, j) == LET d == News[j]  x == Append(p, NumOf(d)) IN
              Does([do |-> "grow", pos |-> p, els |-> <<d>>],
                   CASE flaw = "grow merges" -> Grown(t, x, d) @@ t
                     [] flaw = "grow forgets" -> [y \in DOMAIN Grown(t, x, d) \ { z \in Kids(t, p) : z # x } |-> Grown(t, x, d)[y]]
                     [] OTHER -> Grown(t, x, d))

Next == /\ Len(hist) < (IF Deep THEN 4 ELSE 3)
        /\ \/ \E j \in 1..Len(Msgs) : Receive(j)
           \/ \E p \in DOMAIN t : Create(p) \/ Assign(p) \/ (t[p].has /\ (Change(p) \/ Again(p)))
           \/ \E p \in {<<>>} \cup DOMAIN t : Len(p) < 3 /\ \E j \in 1..Len(News) : Grow(p, j)
Spec == Init /\ [][Next]_vars
View == <<t, before, last, flaw, IF flaw = "none" THEN hist ELSE <<>>>>

(* Said again: in terms of messages, where they can do it, and of what is not concerned *)
Bare(tree) == [p \in DOMAIN tree |-> [tree[p] EXCEPT !.q = FALSE]]
ByMessage(d, p) == Bare(Apply(before, << [d EXCEPT !.q = TRUE, !.p = p] >>).t)
Else(p) == \A x \in DOMAIN before \cup DOMAIN t : ~AtOrBelow(p, x) => x \in DOMAIN t /\ x \in DOMAIN before /\ t[x] = before[x]
Told(p, fs) == /\ DOMAIN t = DOMAIN before
               /\ \A x \in DOMAIN t : x # p => t[x] = before[x]
               /\ t[p] = [before[p] EXCEPT !.has = TRUE, !.f = fs]
Right ==
    CASE last.do = "create" -> Told(last.pos, FreshFields(before[last.pos].k))
      [] last.do = "assign" -> Told(last.pos, NormFields(last.els[1].f))
      [] last.do = "again" -> t = before
      [] last.do = "change" -> Bare(t) = ByMessage(With(El(before[last.pos].k, TRUE, last.pos), last.f), last.pos)
      [] last.do = "grow" ->
            LET d == last.els[1]  p == Append(last.pos, NumOf(d)) IN
            /\ Else(p)
            /\ p \notin DOMAIN before => Bare(t) = ByMessage(d, p)
            /\ { x \in DOMAIN t : AtOrBelow(p, x) } = MentionedIn(p, d)
            /\ t[p] = NodeOf(d)
      [] OTHER -> TRUE
Said == (flaw = "none" => Right) /\ (IF ~Right /\ flaw \notin TLCGet(7) THEN TLCSet(7, TLCGet(7) \cup {flaw}) ELSE TRUE)
ASSUME TLCSet(7, {})
Found == IF TLCGet(7) = Flaws \ {"none"} THEN TRUE ELSE PrintT(<<"flaws found", TLCGet(7)>>) /\ FALSE

NoOrphans == flaw = "none" => \A p \in DOMAIN t : Len(p) > 1 => Parent(p) \in DOMAIN t
(* What was edited can be encoded, and is the same elsewhere. *)
Same == flaw = "none" => Apply(NoTree, TreeDesc(t)).t = t

Emit == (flaw = "none" /\ Len(hist') = (IF Deep THEN 4 ELSE 3)) =>
        PrintT("CASE " \o ToJson(hist' \o <<[do |-> "enc"]>>
                                       \o (IF last'.do = "msg" THEN <<>> ELSE <<[do |-> "find", pos |-> last'.pos]>>)))
=============================================================================
