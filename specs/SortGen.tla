------------------------------ MODULE SortGen -------------------------------
(* Sorting by exchanges: the state machine may exchange any two edges that    *)
(* stand in the wrong order, keeping the lookups in step; whatever it does it *)
(* ends, and ends with SortOk. The inputs are all sequences of M keys below   *)
(* Top (weight key \div 2, probability key % 2), or with Top = 0 all orders   *)
(* of M different keys; each is printed for the conformance check.            *)
EXTENDS EdgeSort, TLC, Json

CONSTANTS M, Top, Hyb, Design, Emit
VARIABLES input, s, look

Edge(k, key) == <<k - 1, k, key \div 2, key % 2>>
Keys == IF Top = 0 THEN {f \in [1 .. M -> 1 .. M] : \A a, b \in 1 .. M : f[a] = f[b] => a = b} ELSE [1 .. M -> 0 .. Top - 1]
Init ==
    /\ \E f \in Keys :
        /\ input = [k \in 1 .. M |-> Edge(k, f[k])]
        /\ Emit = 1 => PrintT("SEQ " \o ToJson([k \in 1 .. M |-> f[k]]))
    /\ s = input /\ look = [k \in 1 .. M |-> k]

Exchange(a, b) ==
    /\ s' = [s EXCEPT ![a] = s[b], ![b] = s[a]]
    /\ look' = [k \in 1 .. M |-> IF look[k] = a THEN b ELSE IF look[k] = b THEN a ELSE look[k]]
    /\ UNCHANGED input
Next == Design = 1 /\ \E a, b \in 1 .. M : a < b /\ ~Before(s[a], s[b], Hyb) /\ Exchange(a, b)
Spec == Init /\ [][Next]_<<input, s, look>>

Result ==
    [s |-> s, pos |-> [k \in 1 .. M |-> k - 1], again |-> 1,
     look |-> [j \in 1 .. 2 * M |-> LET k == (j + 1) \div 2 IN <<look[k] - 1, input[k][3], input[k][4], 1>>]]
\* When nothing is left to exchange the result is right, and only then.
Right == (~ENABLED Next) <=> SortOk(input, Result, Hyb)
Same == SameEdges(input, s)
=============================================================================
