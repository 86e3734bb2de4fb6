------------------------------ MODULE MstTrace ------------------------------
(* Judges recorded results: runs [n, e, ev]; e the edges of the graph, an     *)
(* event: a computed tree (o = "tree"), or "crash".                           *)
EXTENDS Mst, TLC, Json, IOUtils

CONSTANT Props
Runs == TLCEval(JsonDeserialize(IOEnv.TRACE))
VARIABLES i, l, bad
Init == i = 1 /\ l = 1 /\ bad = 0

Right(G, e) == e.o = "tree" /\ TreeOk(G, e)

Consume ==
    /\ i <= Len(Runs) /\ l <= Len(Runs[i].ev)
    /\ i' = i
    /\ \E e \in {Runs[i].ev[l]} : \E G \in {[n |-> Runs[i].n, e |-> ToSet(Runs[i].e)]} :
        IF TLCEval(Right(G, e)) THEN l' = l + 1 /\ bad' = bad
        ELSE /\ PrintT(<<"FAULT", i, l, Props>>)
             /\ l' = Len(Runs[i].ev) + 1 /\ bad' = bad + 1

NextRun ==
    /\ i <= Len(Runs) /\ l > Len(Runs[i].ev)
    /\ i' = i + 1 /\ l' = 1 /\ bad' = bad
    /\ (i = Len(Runs)) => PrintT(<<"DONE", i, bad>>)

Next == Consume \/ NextRun
TraceSpec == Init /\ [][Next]_<<i, l, bad>>
=============================================================================
