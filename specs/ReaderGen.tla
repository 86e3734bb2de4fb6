----------------------------- MODULE ReaderGen ------------------------------
(* All symmetric matrix files of N vertices with the entries of Entries, and  *)
(* files with one defect; reads each and prints what comes of it.             *)
EXTENDS Reader, TLC, Json

CONSTANTS Built, Hyb, N, Weights, Probs, Defects

Entries == {<<w, p>> : w \in Weights, p \in Probs}
Upper == {<<i, j>> \in (1 .. N) \X (1 .. N) : i < j}
Matrix(f) == [i \in 0 .. N |-> IF i = 0 THEN [k \in 1 .. N |-> <<k, 2 * k>>]
                               ELSE [j \in 1 .. N |-> IF i < j THEN f[<<i, j>>] ELSE IF j < i THEN f[<<j, i>>] ELSE <<0, 0>>]]
ToSeq(m) == [k \in 1 .. N + 1 |-> m[k - 1]]
Plain == {ToSeq(Matrix(f)) : f \in [Upper -> Entries]}
SpoilAt(m, i, j) == [m EXCEPT ![i][j] = Bad]
Wider(m, i) == [m EXCEPT ![i] = Append(m[i], <<1, 0>>)]
Longer(m) == Append(m, [j \in 1 .. N |-> <<0, 0>>])
Spoilt(m) == {SpoilAt(m, i, j) : i \in 1 .. N + 1, j \in 1 .. N} \cup {Wider(m, i) : i \in 1 .. N + 1} \cup {Longer(m)}

Init == \E m \in Plain : \E f \in (IF Defects = 1 THEN Spoilt(m) ELSE {m}) : Open(Built, Hyb, f)
Done ==
    /\ verdict \in {"accepted", "rejected"}
    /\ PrintT("SEQ " \o ToJson(<<file, verdict>>))
    /\ verdict' = "printed" /\ UNCHANGED <<built, hyb, file, row, col, xy, edges, near>>
Spec == Init /\ [][ReadNext \/ Done]_rvars
Right == verdict # "printed" => Faithful
=============================================================================
