------------------------------- MODULE PQGen --------------------------------
(* All operation sequences of a priority queue up to a depth, after a prefix  *)
(* that fills it. Every maximal sequence is printed with the answers allowed. *)
EXTENDS PQueue, Json

CONSTANTS Fill,     \* number of elements inserted first, with values 10, 20, ...
          Drain,    \* then so many extractions
          Keys,     \* number of keys used later on
          Values,   \* values of later insertions
          Depth     \* number of free operations

VARIABLES h, used
gvars == <<q, h, used>>

Op(o, k, v, allowed, pick) == <<o, k, v, allowed, pick>>
Init == q = Empty /\ h = <<>> /\ used = 0
Step(o) == h' = Append(h, o)

Filling == used < Fill
Draining == ~Filling /\ Len(h) < Fill + Drain
Free == Len(h) >= Fill + Drain /\ Len(h) < Fill + Drain + Depth

DoExtract == \E k \in Answers : Extract(k) /\ Step(Op("ext", 0, 0, Answers, k)) /\ UNCHANGED used

\* Decreases: to just below another value, or to a new minimum.
Targets(k) == {v - 1 : v \in {q[j] : j \in DOMAIN q}} \cup {q[k]}

Next ==
    \/ Filling /\ Insert(used, 10 * (used + 1)) /\ Step(Op("ins", used, 10 * (used + 1), {}, 0)) /\ used' = used + 1
    \/ Draining /\ DoExtract
    \/ /\ Free
       /\ \/ DoExtract
          \/ used < Fill + Keys /\ \E v \in Values : Insert(used, v) /\ Step(Op("ins", used, v, {}, 0)) /\ used' = used + 1
          \/ \E k \in DOMAIN q : Delete(k) /\ Step(Op("del", k, 0, {}, 0)) /\ UNCHANGED used
          \/ \E k \in DOMAIN q : \E v \in Targets(k) :
                Decrease(k, v) /\ Step(Op("dec", k, v, {}, 0)) /\ UNCHANGED used
    \/ /\ Len(h) = Fill + Drain + Depth
       /\ PrintT("SEQ " \o ToJson(<<h, {<<k, q[k]>> : k \in DOMAIN q}>>))
       /\ h' = Append(h, Op("end", 0, 0, {}, 0)) /\ UNCHANGED <<q, used>>
Spec == Init /\ [][Next]_gvars

\* A priority queue never holds an element it was not given, and an extraction takes the least.
TypeOK == \A k \in DOMAIN q : k < used
=============================================================================
