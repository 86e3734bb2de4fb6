------------------------------- MODULE PQueue -------------------------------
(* The heap as a priority queue: a value for every key present (C15).         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLE q          \* function from the keys present to their values

Empty == [k \in {} |-> 0]
Least == {k \in DOMAIN q : \A j \in DOMAIN q : q[k] <= q[j]}

Insert(k, v) == k \notin DOMAIN q /\ q' = (k :> v) @@ q
Decrease(k, v) == k \in DOMAIN q /\ v <= q[k] /\ q' = [q EXCEPT ![k] = v]
Remove(k) == q' = [j \in DOMAIN q \ {k} |-> q[j]]
Delete(k) == k \in DOMAIN q /\ Remove(k)

\* What an extraction may return.
Answers == IF q = Empty THEN {-1} ELSE Least
Extract(k) == k \in Answers /\ Remove(k)
=============================================================================
