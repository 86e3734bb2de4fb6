----------------------------- MODULE OpenQueue ------------------------------
(* How the solver keeps its open subproblems: a sequence from whose head it   *)
(* takes, and into which a new subproblem goes in front of the first one to   *)
(* which it is preferred. In hybrid mode a preference is not a weak order     *)
(* (two subproblems may both be incomparable with a third, and one of them    *)
(* preferred to the other), so it has to be shown that the head is always one *)
(* to which no open subproblem is preferred, which is what C07 demands of a   *)
(* step of BranchBound; and that equal ones keep their order.                 *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxVal, MaxProb,  \* values and probabilities: 0 .. MaxVal, 0 .. MaxProb
          Eps, Better,      \* the tolerance, the difference of probabilities that counts
          Hyb, MaxLen, MaxIds

VARIABLES q, next, bag      \* the sequence, the next number, and the same as a set
ovars == <<q, next, bag>>

\* a better than b
Preferred(a, b) ==
    \/ b.val - a.val > Eps
    \/ Hyb /\ b.val > a.val /\ a.prob - b.prob >= Better

First(x) == IF \E k \in 1 .. Len(q) : Preferred(x, q[k])
            THEN CHOOSE k \in 1 .. Len(q) : Preferred(x, q[k]) /\ \A j \in 1 .. k - 1 : ~Preferred(x, q[j])
            ELSE Len(q) + 1

Init == q = <<>> /\ next = 0 /\ bag = {}
Insert ==
    /\ Len(q) < MaxLen /\ next < MaxIds
    /\ \E v \in 0 .. MaxVal, p \in 0 .. MaxProb :
        LET x == [id |-> next, val |-> v, prob |-> p]
            k == First(x)
        IN q' = SubSeq(q, 1, k - 1) \o <<x>> \o SubSeq(q, k, Len(q)) /\ bag' = bag \cup {x}
    /\ next' = next + 1
Take == q # <<>> /\ q' = Tail(q) /\ bag' = bag \ {Head(q)} /\ UNCHANGED next
Next == Insert \/ Take
Spec == Init /\ [][Next]_ovars

Same == bag = {q[k] : k \in 1 .. Len(q)} /\ Cardinality(bag) = Len(q)
NoInversion == \A i, j \in 1 .. Len(q) : i < j => ~Preferred(q[j], q[i])
BestFirst == q # <<>> => \A x \in bag : ~Preferred(x, Head(q))
InOrder == \A i, j \in 1 .. Len(q) :
    (i < j /\ q[i].val = q[j].val /\ q[i].prob = q[j].prob) => q[i].id < q[j].id
\* Why it works: the preference is transitive.
Things == [val : 0 .. MaxVal, prob : 0 .. MaxProb]
ASSUME \A a, b, c \in Things : Preferred(a, b) /\ Preferred(b, c) => Preferred(a, c)
=============================================================================
