----------------------------- MODULE SortTrace ------------------------------
(* Judges recorded sorts: runs [hyb, e, ev]; one event: the result or "crash" *)
EXTENDS EdgeSort, TLC, Json, IOUtils

CONSTANT Props
Runs == TLCEval(JsonDeserialize(IOEnv.TRACE))
VARIABLES i, bad
Init == i = 1 /\ bad = 0
Right(r) == r.ev[1].o = "sort" /\ SortOk(r.e, r.ev[1], r.hyb)
Next ==
    /\ i <= Len(Runs)
    /\ i' = i + 1
    /\ \E r \in {Runs[i]} :
        IF TLCEval(Right(r)) THEN bad' = bad ELSE PrintT(<<"FAULT", i, 1, Props>>) /\ bad' = bad + 1
    /\ (i = Len(Runs)) => PrintT(<<"DONE", i, bad'>>)
TraceSpec == Init /\ [][Next]_<<i, bad>>
=============================================================================
