------------------------------ MODULE NetTrace ------------------------------
(* Matrix files written by the real program: items [n, m, p, input, xy,       *)
(* cities, rows, ok]. The answer of the model goes through the machine of     *)
(* Network.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Props
Items == TLCEval(JsonDeserialize(IOEnv.TRACE))
VARIABLES i, bad, n, m, p, input, list, prob, at, stage
mvars == <<n, m, p, input, list, prob, at, stage>>
W == INSTANCE Network
K == Items[i]

Init == i = 0 /\ bad = 0 /\ W!Load(0, 0, <<>>, <<>>)
Begin == /\ stage = "next" \/ i = 0
         /\ i < Len(Items) /\ i' = i + 1 /\ bad' = bad
         /\ LET k == Items[i + 1] q == IF k.n < k.m THEN k.n ELSE k.m
            IN IF k.ok = 1 THEN
                   /\ n' = k.n /\ m' = k.m /\ p' = k.p /\ input' = k.input /\ at' = q + 1
                   /\ list' = SubSeq(k.input, 1, q)
                   /\ prob' = [a \in 1 .. q |-> [b \in 1 .. q |-> k.p[a][b]]]
                   /\ stage' = "work"
               ELSE stage' = "failed" /\ UNCHANGED <<n, m, p, input, list, prob, at>>
\* The input of the model: all cities in turn and copies, or different cities.
InputOk == /\ Len(input) = m /\ \A k \in 1 .. m : input[k] \in 0 .. n - 1
           /\ IF n <= m THEN \A k \in 1 .. n : input[k] = k - 1
              ELSE Cardinality({input[k] : k \in 1 .. m}) = m
\* The machine may add cities in any order; one order is enough.
First == (Len(list') > Len(list)) => \A c \in (0 .. n - 1) \ {list[a] : a \in 1 .. Len(list)} : list'[Len(list')] <= c
Work == stage = "work" /\ InputOk /\ W!NetNext /\ First /\ UNCHANGED <<i, bad>>

PlaceOf(s) == [c \in 0 .. n - 1 |-> CHOOSE a \in 1 .. n : s[a] = c]
Judge ==
    /\ stage = "written" /\ W!FileOk(K.cities, K.rows, K.xy)
    /\ LET at0 == PlaceOf(list) q == [a \in 1 .. n |-> at0[K.cities[a]]]
       IN \A a, b \in 1 .. n : a # b => K.rows[a][b][2] = prob[q[a]][q[b]]
End == /\ stage \in {"written", "failed"} \/ (stage = "work" /\ ~InputOk)
       /\ i > 0 /\ stage' = "next" /\ UNCHANGED <<i, n, m, p, input, list, prob, at>>
       /\ IF TLCEval(Judge) THEN bad' = bad
          ELSE PrintT(<<"FAULT", i, 1, Props>>) /\ bad' = bad + 1
       /\ (i = Len(Items)) => PrintT(<<"DONE", i, bad'>>)
Next == Begin \/ Work \/ End
TraceSpec == Init /\ [][Next]_<<mvars, i, bad>>
=============================================================================
