------------------------------ MODULE TraceBER ------------------------------
(***************************************************************************)
(* C01 - C04, C07: what the primitive writers wrote and the readers read.  *)
(* Events:                                                                 *)
(*   w     k kind of value, v value, tag, out bytes written, err           *)
(*   wbig  long string or buffer: head bytes before the content, m whether *)
(*         the rest is the content, n its length                           *)
(*   r     k, tag, in bytes read from, err, v value, off bytes consumed,   *)
(*         len bytes left                                                  *)
(*   in w and r, kept: the values written or read before are unchanged     *)
(*   rbig  as wbig, with got = length of what was read, rest = bytes after *)
(***************************************************************************)
EXTENDS Writer, Judge

BERFresh(e) == [lost |-> FALSE]

(* The one value that out is, or Item0 with another status *)
Whole(out) == LET it == Parse(out) IN
    IF it.st = "ok" /\ it.next # Len(out) + 1 THEN [it EXCEPT !.st = "other"] ELSE it

JudgeW(e) ==
    IF e.panic # "" THEN "writing panics: " \o e.panic
    ELSE IF ~e.kept THEN "writing changes what was written, or was read before"
    ELSE IF e.err THEN "writing fails"
    ELSE IF e.k = "real" /\ (Len(e.out) < 2 \/ e.out[1] # TagReal \/ e.out[2] # Len(e.out) - 2)
    THEN "not one real with its length"
    ELSE IF e.k = "real"
    THEN IF RealWritten(e.v, SubSeq(e.out, 3, Len(e.out))) THEN "" ELSE "not the encoding of this real"
    ELSE LET want == CASE e.k \in {"int", "int64", "enum", "inttag", "int64tag"} -> Shortest(e.v)
                       [] e.k = "bool" -> <<IF e.v = <<0>> THEN 0 ELSE 255>>
                       [] e.k = "null" -> <<>>
                       [] e.k = "oid" -> OidContent(e.v)
                       [] OTHER -> e.v
         IN IF e.k = "bool" /\ e.v # <<0>>
            THEN IF Len(e.out) = 3 /\ e.out[1] = 1 /\ e.out[2] = 1 /\ e.out[3] # 0 THEN "" ELSE "not the boolean true"
            ELSE IF e.out = <<WTag(e)>> \o LenOctets(Len(want)) \o want THEN ""
            ELSE "the bytes written are not the shortest encoding of the value"

RTag(e) == CASE e.k \in {"int", "int64"} -> TagInteger
             [] e.k = "bool" -> TagBoolean
             [] e.k = "real" -> TagReal
             [] e.k = "str" -> TagUTF8
             [] e.k = "bits" -> TagBitString
             [] e.k = "oid" -> e.tag

JudgeR(e) ==
    IF e.panic # "" THEN [bad |-> "reading panics: " \o e.panic, cls |-> ""]
    ELSE IF ~e.kept THEN [bad |-> "reading changes a value that was read before", cls |-> ""]
    ELSE LET it == Value(e.in) IN
    IF e.in # <<>> /\ it.t # RTag(e)
    THEN [bad |-> IF e.err THEN "" ELSE "a value under another tag is accepted", cls |-> "tag"]
    ELSE IF it.st = "trunc"
    THEN [bad |-> IF e.err THEN "" ELSE "a truncated value is accepted", cls |-> "truncated"]
    ELSE IF it.st = "other" THEN [bad |-> "", cls |-> "free"]
    ELSE LET x == Expect(e.k, it.c) IN
         IF x.st = "bad" THEN [bad |-> IF e.err THEN "" ELSE "a malformed value is accepted", cls |-> "malformed"]
         ELSE IF x.st = "other" THEN [bad |-> "", cls |-> "free"]
         ELSE [bad |-> IF e.err THEN "a well-formed value is refused"
                       ELSE IF x.nan # e.nan \/ (~x.nan /\ x.v # e.v) THEN "another value is read"
                       ELSE IF e.off # it.next - 1 THEN "the value is read but not exactly consumed"
                       ELSE IF e.len # Len(e.in) - e.off THEN "the length left is wrong"
                       ELSE "", cls |-> "value"]

BERJudgement(st, e) ==
    CASE e.op = "w" -> LET b == JudgeW(e) IN IF b = "" THEN Good(st, "write " \o e.k) ELSE Bad(st, b)
      [] e.op = "wbig" ->
         IF e.panic # "" THEN Bad(st, "writing panics: " \o e.panic)
         ELSE IF e.err THEN Bad(st, "writing fails")
         ELSE IF e.m /\ e.head = <<WTag(e)>> \o LenOctets(e.n) THEN Good(st, "write long " \o e.k)
         ELSE Bad(st, "not tag, shortest length and content")
      [] e.op = "r" -> LET b == JudgeR(e) IN
         IF b.bad = "" THEN Good(st, "read " \o e.k \o " " \o b.cls) ELSE Bad(st, b.bad)
      [] e.op = "rbig" ->
         LET l == LenAt(e.head, 2, Len(e.head)) IN
         IF e.panic # "" THEN Bad(st, "reading panics: " \o e.panic)
         ELSE IF l.st = "ok" /\ e.head[1] = RTag(e) /\ l.n = e.n /\ l.next = Len(e.head) + 1 THEN
              IF e.have < e.n THEN IF e.err THEN Good(st, "read long truncated")
                                   ELSE Bad(st, "a truncated value is accepted")
              ELSE IF e.err THEN Bad(st, "a well-formed value is refused")
              ELSE IF ~e.m \/ e.got # e.n THEN Bad(st, "another value is read")
              ELSE IF e.len # e.have - e.n THEN Bad(st, "the value is read but not exactly consumed")
              ELSE Good(st, "read long " \o e.k)
         ELSE Good(st, "free")
      [] OTHER -> Assert(FALSE, <<"unknown event", e>>)
=============================================================================
