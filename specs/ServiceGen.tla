----------------------------- MODULE ServiceGen -----------------------------
(* All histories of requests up to a length: the instance and what the memory *)
(* holds: 0 zeros, 1 what the previous solve left, 2 and 3 other things.      *)
(* Sub-histories need not be repeated: only histories of full length are      *)
(* printed, where the first request finds no earlier solve.                   *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Instances, Memories, Length
VARIABLE h
Init == h = <<>>
Next ==
    \/ /\ Len(h) < Length
       /\ \E i \in Instances, m \in Memories : (h = <<>> => m # 1) /\ h' = Append(h, 100 * m + i)
       /\ Len(h') = Length => PrintT("SEQ " \o ToJson(h'))
Spec == Init /\ [][Next]_h
=============================================================================
