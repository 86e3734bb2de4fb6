----------------------------- MODULE MergeFind ------------------------------
(* The merge-find forest as an equivalence relation (C16): class[i] is the    *)
(* set of the elements equivalent to i.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLE class

Single(S) == [i \in S |-> {i}]
Merge(a, b) == class' = [i \in DOMAIN class |-> IF i \in class[a] \cup class[b] THEN class[a] \cup class[b] ELSE class[i]]
Find(a) == class' = class

\* Representatives: one per class, out of the class.
RepsOk(r) ==
    /\ DOMAIN r = DOMAIN class
    /\ \A i \in DOMAIN class : r[i] \in class[i]
    /\ \A i, j \in DOMAIN class : (r[i] = r[j]) <=> (class[i] = class[j])

\* The classes partition the elements.
Partition == \A i, j \in DOMAIN class : i \in class[i] /\ (class[i] = class[j] \/ class[i] \cap class[j] = {})
=============================================================================
