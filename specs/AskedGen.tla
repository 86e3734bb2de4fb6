----------------------------- MODULE AskedGen -------------------------------
(* All instances of N different places of a small grid, for a model for M     *)
(* cities and every number of neighbours; all orders of the calls of the      *)
(* network up to a length.                                                    *)
EXTENDS Asked, TLC, Json

CONSTANTS N, M, Side, Calls

VARIABLES places, near, calls
gvars == <<avars, places, near, calls>>

Grid == {<<x, y>> : x, y \in 0 .. Side - 1}
Instances == {s \in [1 .. N -> Grid] : \A k, l \in 1 .. N : k < l => (s[k][1] < s[l][1] \/ (s[k][1] = s[l][1] /\ s[k][2] < s[l][2]))}
Init == places \in Instances /\ near \in {-1} \cup 1 .. M - 1 /\ calls = <<>> /\ Begin(M)
Next == /\ Len(calls) < Calls /\ UNCHANGED <<places, near>>
        /\ \/ \E k \in {M, M + 1} : (Make(k) /\ calls' = Append(calls, <<"make", k>>)) \/ (Take(k) /\ calls' = Append(calls, <<"take", k>>))
           \/ \E x \in {"train", "eval"} : Switch(x) /\ calls' = Append(calls, <<x, 0>>)
           \/ Ask /\ calls' = Append(calls, <<"ask", 0>>)
Show == Calls = 0 /\ calls = <<>> /\ PrintT("SEQ " \o ToJson(<<places, near>>)) /\ calls' = <<"shown">> /\ UNCHANGED <<avars, places, near>>
Spec == Init /\ [][Next \/ Show]_gvars

\* No answer of an untrained network, of one for another size or of one in training.
LastOf(S) == LET js == {j \in DOMAIN calls : calls[j][1] \in S} IN IF js = {} THEN 0 ELSE Max(js)
Trusted == answers > 0 =>
    \A j \in DOMAIN calls : calls[j][1] = "ask" =>
        \E a, b, c \in 1 .. j : /\ calls[a] = <<"make", M>> /\ calls[b] = <<"take", M>> /\ calls[c] = <<"eval", 0>> /\ a < b /\ a < c
                                /\ \A k \in a + 1 .. j : calls[k][1] # "make"
                                /\ \A k \in b + 1 .. j : calls[k][1] # "take"
                                /\ \A k \in c + 1 .. j : calls[k][1] # "train"
\* The question that the rules make is right, whatever the places.
At == [k \in 1 .. M |-> places[((k - 1) % N) + 1]]
Consistent == Calls = 0 => KindsOk(At, Kinds(At, near), near)
=============================================================================
