------------------------------- MODULE SeqGen -------------------------------
(* All operation sequences of a list up to a depth; elements are numbered in  *)
(* the order of their insertion. Bottoms = 0 leaves out the deletion at the   *)
(* end, which the list of subproblems does not have.                          *)
EXTENDS Seqs, Json

CONSTANTS Depth, Bottoms
VARIABLE h

X == Len(h) + 1
Init == s = <<>> /\ h = <<>>
Next ==
    \/ /\ Len(h) < Depth
       /\ \/ AddBottom(X) /\ h' = Append(h, <<"addb", X, 0>>)
          \/ \E k \in 0 .. (Len(s) + 1) : AddIndex(X, k) /\ h' = Append(h, <<"addi", X, k>>)
          \/ Bottoms = 1 /\ DelBottom /\ h' = Append(h, <<"delb", 0, 0>>)
          \/ \E k \in 0 .. Len(s) : DelIndex(k) /\ h' = Append(h, <<"deli", 0, k>>)
    \/ /\ Len(h) = Depth
       /\ PrintT("SEQ " \o ToJson(<<h, s>>))
       /\ h' = Append(h, <<"end", 0, 0>>) /\ UNCHANGED s
Spec == Init /\ [][Next]_<<s, h>>
Distinct == \A a, b \in 1 .. Len(s) : s[a] = s[b] => a = b
=============================================================================
