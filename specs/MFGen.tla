------------------------------- MODULE MFGen --------------------------------
(* All sequences of merges and finds up to a depth over the elements          *)
(* 0..n-1, without the element skip (99: none left out).                      *)
EXTENDS MergeFind, Json

CONSTANTS N, Skip, Depth
VARIABLE h

Elements == 0 .. (N - 1) \ {Skip}
Init == class = Single(Elements) /\ h = <<>>
Next ==
    \/ /\ Len(h) < Depth
       /\ \/ \E a, b \in Elements : a # b /\ Merge(a, b) /\ h' = Append(h, <<"mer", a, b, {}>>)
          \/ \E a \in Elements : Find(a) /\ h' = Append(h, <<"fin", a, 0, class[a]>>)
    \/ /\ Len(h) = Depth
       /\ PrintT("SEQ " \o ToJson(<<h, {class[a] : a \in Elements}>>))
       /\ h' = Append(h, <<"end", 0, 0, {}>>) /\ UNCHANGED class
Spec == Init /\ [][Next]_<<class, h>>
=============================================================================
