------------------------------- MODULE NetGen -------------------------------
(* All answers of small models, with the values of Levels off the diagonal,   *)
(* and every way to pick the cities of the input.                             *)
EXTENDS Network, TLC, Json

CONSTANTS N, M, Levels, Order      \* Order = 1: only the copies in turn, as the driver of the network makes them

Rows == IF N < M THEN N ELSE M     \* only these rows matter
Pairs == {<<a, b>> \in (1 .. Rows) \X (1 .. M) : a # b}
Answer(f) == [a \in 1 .. M |-> [b \in 1 .. M |-> IF <<a, b>> \in Pairs THEN f[<<a, b>>] ELSE 0]]
Inputs == IF N < M THEN {s \in [1 .. M -> 0 .. N - 1] : (\A k \in 1 .. N : s[k] = k - 1) /\ (Order = 0 \/ \A k \in 1 .. M : s[k] = (k - 1) % N)}
          ELSE IF N = M THEN {[k \in 1 .. M |-> k - 1]}
          ELSE {s \in [1 .. M -> 0 .. N - 1] : \A k, l \in 1 .. M : k # l => s[k] # s[l]}
Init == \E f \in [Pairs -> Levels] : \E s \in Inputs : Load(N, M, Answer(f), s)
Show == /\ stage = "written" /\ PrintT("SEQ " \o ToJson(<<N, M, p, input>>))
         /\ stage' = "printed" /\ UNCHANGED <<n, m, p, input, list, prob, at>>
Spec == Init /\ [][NetNext \/ (Order = 1 /\ Show)]_nvars
=============================================================================
