----------------------------- MODULE ProfileGen -----------------------------
(* All pairs of small histories of two instances in the two modes.            *)
EXTENDS Profile, Json

CONSTANTS Vals, Times, Vals2, Tol

Lists1(V) == {<< <<v, t>> >> : v \in V, t \in Times}
Lists2(V) == {<<e, f>> : e \in V \X Times, f \in V \X Times}
Sound(s) == \A k \in 1 .. Len(s) - 1 : s[k][1] > s[k + 1][1] /\ s[k][2] <= s[k + 1][2]
H(S) == [imp : S, res : {0, 1}]
A == TLCEval(H({s \in Lists1(Vals) \cup Lists2(Vals) : Sound(s)}))
B == TLCEval(H(Lists1(Vals2)))

Empty == [m \in Modes |-> <<>>]
Init == /\ hist = Empty /\ tol = 0 /\ ptr = Empty /\ inc = Empty /\ solved = [m \in Modes |-> {}]
        /\ curve = <<>> /\ cum = <<>> /\ at = 0 /\ fresh = FALSE /\ dirty = FALSE
Start == /\ tol = 0
         /\ \E a \in A, b \in B, c \in A, d \in B : Begin([hyb |-> <<a, b>>, cla |-> <<c, d>>], Tol)
\* The order within a moment does not matter: one of them is enough.
Work == tol > 0 /\ LET R == Ripe IN R # {} /\ LET p == CHOOSE p \in R : TRUE IN Take(p[1], p[2])
Show == /\ tol > 0 /\ Over /\ at >= 0
        /\ PrintT("SEQ " \o ToJson(<<hist["hyb"], hist["cla"], curve, cum>>))
        /\ at' = -1 /\ UNCHANGED <<hist, tol, ptr, inc, solved, curve, cum, fresh, dirty>>
Next == Start \/ Work \/ (tol > 0 /\ Draw) \/ Show
Spec == Init /\ [][Next]_pvars
Right == tol > 0 => Definition
=============================================================================
