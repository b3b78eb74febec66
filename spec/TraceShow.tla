----------------------------- MODULE TraceShow -----------------------------
(***************************************************************************)
(* C32: what real trees, contents, values and commands show of themselves. *)
(*   show    text of the tree that messages have made                      *)
(*   value   [t, v] and its text; t = "unset" for a value not set          *)
(*   path    components and their text                                     *)
(*   flags   of a command, and its text                                    *)
(*   type    of a value, and the name of the type                          *)
(* and the events of TraceTree.                                            *)
(***************************************************************************)
EXTENDS TraceTree, Show

JudgeShow(st, e) ==
    IF e.panic # "" THEN Bad(st, "panics: " \o e.panic)
    ELSE IF ~AllShowable(st.t) THEN Good(st, "free")
    ELSE LET r == ReadText(e.text)
             s == Shown(st.t) IN
         IF ~r.ok THEN Bad(st, "the text is not one of a tree")
         ELSE IF r.els = s THEN Good(st, IF s = {} THEN "show nothing" ELSE IF \A x \in s : x.children = {} THEN "show flat" ELSE "show deep")
         ELSE Bad(st, "the text shows another tree than the one held")

FlagNames == << "ALL", "Default", "Identifier", "Description", "Tree", "Value", "Connections" >>
FlagText(v) == \* v: 8 bytes
    LET small == { i \in -1..5 : v = SmallInt8(i) } IN
    IF small = {} THEN {IntText(v)} \cup (IF v = SmallInt8(-2) THEN {Chars("Sparse")} ELSE {})
    ELSE {Chars(FlagNames[2 + CHOOSE i \in small : TRUE])}

ShowJudgement(st, e) ==
    CASE e.op = "show" -> JudgeShow(st, e)
      [] e.op = "value" ->
            IF e.panic # "" THEN Bad(st, "panics: " \o e.panic)
            ELSE IF e.t = "real" /\ ~RealShown(e.v) THEN Good(st, "free")
            ELSE IF e.text = (IF e.t = "unset" THEN <<>> ELSE ValueText(e.t, e.v)) THEN Good(st, "value " \o e.t)
            ELSE Bad(st, "the text shows another value")
      [] e.op = "path" ->
            IF e.panic # "" THEN Bad(st, "panics: " \o e.panic)
            ELSE IF e.text = Dotted(e.p) THEN Good(st, "path") ELSE Bad(st, "the text shows another path")
      [] e.op = "flags" ->
            LET s == Trim(e.text)
                c == Colon(s) IN
            IF e.panic # "" THEN Bad(st, "panics: " \o e.panic)
            ELSE IF Lower(SubSeq(s, 1, c - 1)) = Chars("fieldflags") /\ Trim(SubSeq(s, c + 1, Len(s))) \in FlagText(e.v)
                 THEN Good(st, "flags") ELSE Bad(st, "the text shows other flags")
      [] e.op = "type" ->
            IF e.text = Chars(CASE e.t = "str" -> "string" [] e.t = "bool" -> "bool" [] e.t = "int" -> "integer" [] e.t = "buf" -> "buffer"
                                [] e.t = "real" -> "real" [] e.t = "oid" -> "oid" [] OTHER -> "unset")
            THEN Good(st, "type") ELSE Bad(st, "the name is of another type")
      [] OTHER -> TreeJudgement(st, e)
=============================================================================
