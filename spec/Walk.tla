-------------------------------- MODULE Walk --------------------------------
(***************************************************************************)
(* What GetTree does, as its caller and the provider see it:               *)
(*   all     the positions of the provider's elements, the root included   *)
(*   skip    those whose directory the provider does not send              *)
(*   asked   the positions whose directories were asked for, in order      *)
(*   ends    how often the caller was called                               *)
(*   err     whether with an error                                         *)
(*   timed   whether the requests have a timeout                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* Those below which everything up to the root was answered
Reached(all, skip) == { p \in all : \A n \in 0..(Len(p) - 1) : SubSeq(p, 1, n) \notin skip }

(* Some of its requests may be refused, since others have made too many: then it ends with an error. *)
CrowdWrong(all, asked, ends, err) ==
    LET askedSet == { asked[j] : j \in 1..Len(asked) } \ {<<>>}
        below == SelectSeq(asked, LAMBDA p : p # <<>>) IN
    IF ends = 0 THEN "GetTree does not end when its requests are refused"
    ELSE IF ends > 1 THEN "GetTree calls its callback more than once"
    ELSE IF Cardinality(askedSet) # Len(below) THEN "GetTree asks for an element twice"
    ELSE IF ~(askedSet \subseteq all) THEN "GetTree asks for something that is not there"
    ELSE IF ~err /\ askedSet # all \ {<<>>} THEN "GetTree ends without an error though not every element was asked for"
    ELSE ""

(* Several at the same time: ends[k] is how often the caller of the k-th was called.  *)
(* What answers a request of one can answer one of another, so what they ask is less. *)
ManyWrong(all, asked, ends, err) ==
    LET askedSet == { asked[j] : j \in 1..Len(asked) } IN
    IF \E k \in DOMAIN ends : ends[k] = 0 THEN "GetTree does not end while there is another"
    ELSE IF \E k \in DOMAIN ends : ends[k] > 1 THEN "GetTree calls its callback more than once"
    ELSE IF err THEN "GetTree ends with an error though everything was answered"
    ELSE IF \E p \in askedSet : Cardinality({ j \in 1..Len(asked) : asked[j] = p }) > Len(ends) THEN "GetTree asks for an element twice"
    ELSE IF ~(askedSet \subseteq all) THEN "GetTree asks for something that is not there"
    ELSE ""

WalkWrong(all, skip, asked, ends, err, timed) ==
    LET askedSet == { asked[j] : j \in 1..Len(asked) } IN
    IF ends = 0 /\ (skip = {} \/ timed) THEN "GetTree does not end"
    ELSE IF ends > 1 THEN "GetTree calls its callback more than once"
    ELSE IF skip = {} /\ err THEN "GetTree ends with an error though everything was answered"
    ELSE IF ends = 1 /\ skip # {} /\ ~err THEN "GetTree ends without an error though not everything was answered"
    ELSE IF Cardinality(askedSet) # Len(asked) THEN "GetTree asks for an element twice"
    ELSE IF ~(askedSet \subseteq Reached(all, skip)) THEN "GetTree asks for something that is not there"
    ELSE IF Reached(all, skip) # askedSet THEN "GetTree does not ask for every element"
    ELSE ""
=============================================================================
