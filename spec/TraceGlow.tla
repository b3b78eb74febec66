----------------------------- MODULE TraceGlow -----------------------------
(***************************************************************************)
(* C06, C07, C09 - C12 (and C08): what was encoded and decoded.            *)
(*   enc   d description of what was built through the public interface,   *)
(*         out its encoding                                                *)
(*   dec   in bytes decoded, v what was found, out its encoding, rest how  *)
(*         many bytes were not read                                        *)
(*   cut   the same for a proper prefix in of whole; padsame: the result   *)
(*         is the same as with the missing bytes being zeros               *)
(* what: msg (a root), el (an element), contents of a kind, or an item.    *)
(***************************************************************************)
EXTENDS Glow, Judge

GlowFresh(e) == [lost |-> FALSE]

Prop == IOEnv.PROP
Kinds == {"node", "param", "matrix", "func", "cmd"}

RECURSIVE NormEl(_), SeenOf(_)
NormEl(d) == [d EXCEPT !.f = NormFields(d.f), !.ch = ByNumber([j \in 1..Len(d.ch) |-> NormEl(d.ch[j])], NumOf)]
NormEls(ds) == ByNumber([j \in 1..Len(ds) |-> NormEl(ds[j])], NumOf)

SeenOf(d) == [k |-> d.k, q |-> d.q, p |-> d.p, has |-> d.has, g |-> IF d.has THEN Got(d.k, d.f) ELSE <<>>,
              ch |-> [j \in 1..Len(d.ch) |-> SeenOf(d.ch[j])], tg |-> d.tg, sr |-> d.sr, cn |-> d.cn]

SigOk(it) == SignalOk(it, Application(14)) \/ SignalOk(it, Application(15))
SigOf(it) == [k |-> IF it.t = Application(14) THEN "target" ELSE "source", n |-> SignalOf(it)]
Conn2Ok(it) == ConnOk(it) /\ ConnRange(it)

(* What the bytes are *)
Means(what, b) ==
    CASE what = "msg" -> Msg(b)
      [] what = "el" -> LET r == Single(b, ElOk, ElOf) IN [r EXCEPT !.v = IF r.st = "ok" THEN <<@>> ELSE @]
      [] what = "label" -> Single(b, LabelOk, LabelOf)
      [] what = "conn" -> Single(b, Conn2Ok, ConnOf)
      [] what = "sig" -> Single(b, SigOk, SigOf)
      [] what = "tuple" -> Single(b, TupOk, TupOf)
      [] what = "inv" -> Single(b, InvOk, InvOf)
      [] what \in Kinds -> Single(b, LAMBDA it : ContentsOk(what, it), LAMBDA it : ContentsOf(what, it))

(* A root has one element per number, and puts elements with longer paths elsewhere. *)
RootOk(els) == Different(els, NumOf) /\ \A j \in 1..Len(els) : Len(els[j].p) = 1

Norm(what, v) == IF what \in {"msg", "el"} THEN NormEls(v) ELSE IF what \in Kinds THEN NormFields(v) ELSE v

(* What is found after decoding *)
Found(what, v) ==
    CASE what \in {"msg", "el"} -> LET n == NormEls(v) IN [j \in 1..Len(n) |-> SeenOf(n[j])]
      [] what \in Kinds -> Got(what, v)
      [] what = "inv" -> <<>>
      [] OTHER -> v

MustRefuse(what, b) ==
    LET it == Parse(b)
        x == [t |-> it.t, c |-> it.c, k |-> it.k] IN
    it.st = "ok" /\ CASE what = "conn" -> ConnOk(x) /\ ~ConnRange(x)
                      [] what = "inv" -> InvUnknown(x)
                      [] OTHER -> FALSE

JudgeDec(st, e) ==
    LET m == Means(e.what, e.in) IN
    IF e.panic # "" THEN Bad(st, "decoding panics: " \o e.panic)
    ELSE IF m.st = "ok" /\ (e.what = "msg" => RootOk(m.v))
    THEN IF e.err THEN Bad(st, "a well-formed " \o e.what \o " is refused")
         ELSE IF e.v # Found(e.what, m.v) THEN Bad(st, "another " \o e.what \o " is found than was sent")
         ELSE IF e.rest # 0 THEN Bad(st, "the " \o e.what \o " is not exactly consumed")
         ELSE IF e.oerr THEN Bad(st, "what was decoded cannot be encoded")
         ELSE LET o == Means(e.what, e.out) IN
              IF o.st # "ok" \/ Norm(e.what, o.v) # Norm(e.what, m.v)
              THEN Bad(st, "encoding the decoded " \o e.what \o " gives another one")
              ELSE Good(st, "dec " \o e.what)
    ELSE IF MustRefuse(e.what, e.in)
    THEN IF e.err THEN Good(st, "refused " \o e.what) ELSE Bad(st, "an invalid " \o e.what \o " is accepted")
    ELSE Good(st, "free")

Odd(what, v) ==
    IF what \in {"msg", "el"} THEN UNION { OddFields(v[j]) : j \in 1..Len(v) } ELSE {}

(* The exceptions in known-findings.txt *)
KnownOdd == { <<"param", 5, "str">>, <<"param", 13, "str">> }

JudgeEnc(st, e) ==
    LET m == Means(e.what, e.out) IN
    IF e.panic # "" THEN Bad(st, "encoding panics: " \o e.panic)
    ELSE IF e.err THEN Bad(st, "encoding fails")
    ELSE IF m.st # "ok" THEN Bad(st, "what is written is not a " \o e.what \o " of the Glow DTD")
    ELSE IF Norm(e.what, m.v) # Norm(e.what, e.d) THEN Bad(st, "what is written is another " \o e.what)
    ELSE IF Prop = "C10" /\ Odd(e.what, m.v) # {}
    THEN IF Odd(e.what, m.v) \subseteq KnownOdd THEN Known(st, "access-type-strings " \o ToString(Odd(e.what, m.v)))
         ELSE Bad(st, "fields with a type that the DTD does not give them: " \o ToString(Odd(e.what, m.v) \ KnownOdd))
    ELSE Good(st, "enc " \o e.what)

JudgeCut(st, e) ==
    LET w == Means(e.what, e.whole)
        it == Parse(e.in)
        c == CutAt(e.in, 1) IN
    IF e.panic # "" THEN Bad(st, "decoding panics: " \o e.panic)
    ELSE IF w.st # "ok" \/ Len(e.in) >= Len(e.whole) \/ e.in # SubSeq(e.whole, 1, Len(e.in)) THEN Good(st, "free")
    ELSE IF it.st \in {"trunc", "cut"}
    THEN IF e.err THEN Good(st, "cut " \o e.what)
         ELSE IF e.padsame /\ Constructed(c.t) /\ c.miss > 0 /\ c.miss <= c.left
         THEN Known(st, "outermost-padded " \o e.what)
         ELSE Bad(st, "a truncated " \o e.what \o " is accepted")
    ELSE Good(st, "cut between items")

MSetOk(e) ==
    CASE e.what = "type" -> e.v \in 0..2
      [] e.what = "mode" -> e.v \in 0..1
      [] e.what = "op" -> e.v \in 0..2
      [] e.what = "disp" -> e.v \in 0..3
      [] OTHER -> e.v \in 0..2 /\ e.o \in 0..1

JudgeMSet(st, e) ==
    IF e.panic # "" THEN Bad(st, "setting panics: " \o e.panic)
    ELSE IF e.err = MSetOk(e) THEN Bad(st, IF e.err THEN "a valid " \o e.what \o " is refused" ELSE "an invalid " \o e.what \o " is accepted")
    ELSE IF e.what \in {"type", "mode", "op", "disp"}
    THEN IF e.after = (IF MSetOk(e) THEN e.v ELSE e.before) THEN Good(st, "set " \o e.what) ELSE Bad(st, "the value is not as set")
    ELSE IF MSetOk(e) /\ (e.after # e.v \/ e.before # e.o) THEN Bad(st, "a new matrix has another type or mode")
    ELSE Good(st, "set " \o e.what)

(* Hostile data, of which only the number n of bytes is known: kb is what was
   allocated altogether, in units of 1024 bytes. *)
JudgeHostile(st, e) ==
    IF e.panic # "" THEN Bad(st, "decoding panics: " \o e.panic)
    ELSE IF e.kb > 4096 + 2 * e.n THEN Bad(st, "decoding " \o ToString(e.n) \o " bytes takes " \o ToString(e.kb) \o " kB")
    ELSE Good(st, "hostile " \o e.what)

FlagValue == "sparse" :> -2 @@ "all" :> -1 @@ "default" :> 0 @@ "identifier" :> 1 @@ "description" :> 2
             @@ "tree" :> 3 @@ "value" :> 4 @@ "connections" :> 5

GlowJudgement(st, e) ==
    CASE e.op = "dec" -> JudgeDec(st, e)
      [] e.op = "enc" -> JudgeEnc(st, e)
      [] e.op = "cut" -> JudgeCut(st, e)
      [] e.op = "mset" -> JudgeMSet(st, e)
      [] e.op = "hostile" -> JudgeHostile(st, e)
      [] e.op = "merged" -> IF e.panic # "" THEN Bad(st, "decoding into a tree, or using it, panics: " \o e.panic)
                            ELSE Good(st, IF e.err THEN "merged refused" ELSE "merged")
      [] e.op = "flag" -> IF e.v = FlagValue[e.name] THEN Good(st, "flag") ELSE Bad(st, "field flag " \o e.name \o " has another number")
      [] e.op = "flags" -> IF e.n # 32 \/ e.v = -1 THEN Good(st, "flags") ELSE Bad(st, "GetDirectory does not ask for all fields")
      [] e.op = "nomatrix" ->
         IF e.panic # "" THEN Bad(st, "panics: " \o e.panic)
         ELSE IF e.accepted = 0 /\ e.out = <<>> THEN Good(st, "no matrix") ELSE Bad(st, "a " \o e.k \o " takes part in matrix signals")
      [] OTHER -> Assert(FALSE, <<"unknown event", e>>)
=============================================================================
