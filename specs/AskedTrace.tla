---------------------------- MODULE AskedTrace ------------------------------
(* Recorded calls of the network: items [n, m, near, xy, ok, calls], calls:   *)
(* <<"make", k>>, <<"take", k>>, <<"eval", 0>>, <<"train", 0>>,               *)
(* <<"ask", [input, nodes, values, kinds]>>.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Props
Items == TLCEval(JsonDeserialize(IOEnv.TRACE))
VARIABLES i, e, bad, want, made, weights, mode, answers
mvars == <<want, made, weights, mode, answers>>
W == INSTANCE Asked
K == Items[i]
C == K.calls[e]
Init == i = 0 /\ e = 1 /\ bad = 0 /\ W!Begin(0)
Next0 == /\ i < Len(Items) /\ IF i = 0 THEN TRUE ELSE e > Len(K.calls) + 1
         /\ i' = i + 1 /\ e' = 1 /\ bad' = bad
         /\ want' = Items[i + 1].m /\ made' = 0 /\ weights' = 0 /\ mode' = "train" /\ answers' = 0
InputOk(q) ==
    /\ Len(q.input) = K.m /\ \A k \in 1 .. K.m : q.input[k] \in 0 .. K.n - 1
    /\ IF K.n <= K.m THEN \A k \in 1 .. K.n : q.input[k] = k - 1
       ELSE Cardinality({q.input[k] : k \in 1 .. K.m}) = K.m
    /\ LET at == TLCEval([k \in 1 .. K.m |-> K.xy[q.input[k] + 1]])
       IN TLCEval(W!QuestionOk(K.m, at, q.nodes, q.values, q.kinds, K.near))
Right == CASE C[1] = "ask" -> InputOk(C[2]) [] OTHER -> TRUE
Step ==
    \/ C[1] = "make" /\ W!Make(C[2])
    \/ C[1] = "take" /\ W!Take(C[2])
    \/ C[1] \in {"eval", "train"} /\ W!Switch(C[1])
    \/ C[1] = "ask" /\ W!Ask
Event == /\ i > 0 /\ e <= Len(K.calls)
         /\ IF TLCEval(Right) /\ ENABLED Step THEN Step /\ e' = e + 1 /\ UNCHANGED <<i, bad>>
            ELSE PrintT(<<"FAULT", i, e, Props>>) /\ bad' = bad + 1 /\ e' = Len(K.calls) + 2 /\ UNCHANGED <<i, mvars>>
Close == /\ i > 0 /\ e = Len(K.calls) + 1 /\ e' = e + 1 /\ UNCHANGED <<i, mvars>>
         /\ IF K.ok = 1 /\ answers > 0 THEN bad' = bad ELSE PrintT(<<"FAULT", i, e, Props>>) /\ bad' = bad + 1
Finish == /\ i = Len(Items) /\ i > 0 /\ e = Len(K.calls) + 2 /\ PrintT(<<"DONE", i, bad>>) /\ e' = e + 1 /\ UNCHANGED <<i, bad, mvars>>
Next == Next0 \/ Event \/ Close \/ Finish
TraceSpec == Init /\ [][Next]_<<mvars, i, e, bad>>
=============================================================================
