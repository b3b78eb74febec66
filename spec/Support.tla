------------------------------ MODULE Support ------------------------------
(***************************************************************************)
(* What the rest is built on: the logger, errors with a trail, the stack.  *)
(* Texts are sequences of bytes.  A format is a sequence of parts          *)
(*    [p |-> "lit", s]   text that is not a verb                           *)
(*    [p |-> "s", s]     %s with its argument                              *)
(*    [p |-> "d", n]     %d with its argument                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
Decimal(n) == IF n < 0 THEN <<45>> \o Digits(0 - n) ELSE Digits(n)

PartText(x) == IF x.p = "d" THEN Decimal(x.n) ELSE x.s
Text(parts) == FoldLeft(LAMBDA acc, x : acc \o PartText(x), <<>>, parts)
(* arguments in a line: a space between them, a newline behind *)
Line(parts) == FoldLeft(LAMBDA acc, j : acc \o (IF j > 1 THEN <<32>> ELSE <<>>) \o PartText(parts[j]), <<>>, [j \in 1..Len(parts) |-> j]) \o <<10>>

Holds(s, x) == \E i \in 0..(Len(s) - Len(x)) : SubSeq(s, i + 1, i + Len(x)) = x

-----------------------------------------------------------------------------
(* Loggers: [k, level]; L gives the level of each way to log. *)
Ways == {"error", "warn", "info", "debug", "debugln"}
Levels == {"error", "warn", "info", "debug"}
LevelOf(way) == IF way = "debugln" THEN "debug" ELSE way
Ordered4(L) == L["error"] < L["warn"] /\ L["warn"] < L["info"] /\ L["info"] < L["debug"]

Prints(L, lg, way) == lg.k = "console" /\ L[LevelOf(way)] <= lg.level

LogOk(L, lg, way, parts, out) ==
    IF ~Prints(L, lg, way) THEN out = <<>>
    ELSE CASE way = "error" -> Holds(out, Text(parts))
           [] way = "debugln" -> out = Line(parts)
           [] OTHER -> out = Text(parts)

-----------------------------------------------------------------------------
(* Errors: [msg, trail]; none is 0 *)
NewErr(parts, here) == [msg |-> Text(parts), trail |-> <<here>>]
PassedOn(e, here) == [e EXCEPT !.trail = Append(@, here)]

-----------------------------------------------------------------------------
(* Stacks: sequences, the top is last *)
Pushed(s, v) == Append(s, v)
Top(s) == IF s = <<>> THEN "nil" ELSE s[Len(s)]
Popped(s) == IF s = <<>> THEN s ELSE SubSeq(s, 1, Len(s) - 1)
=============================================================================
