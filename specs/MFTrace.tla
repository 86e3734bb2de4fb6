------------------------------ MODULE MFTrace -------------------------------
(* Follows recorded runs of the forest through MergeFind. A run:              *)
(* [n, skip, ev]; an event: [o ("mer", "fin" or "all"), a, b, r]; r is the    *)
(* representative of a, or for "all" those of all elements in order.          *)
EXTENDS MergeFind, Json, IOUtils

CONSTANT Props
Runs == TLCEval(JsonDeserialize(IOEnv.TRACE))
VARIABLES i, l, bad

ElementsOf(k) == IF k > Len(Runs) THEN {} ELSE (0 .. (Runs[k].n - 1)) \ {Runs[k].skip}
Init == class = Single(ElementsOf(1)) /\ i = 1 /\ l = 1 /\ bad = 0

Right(e) ==
    CASE e.o = "mer" -> TRUE
      [] e.o = "fin" -> e.r[1] \in class[e.a]
      [] e.o = "all" -> /\ Len(e.r) = Runs[i].n
                        /\ RepsOk([k \in DOMAIN class |-> e.r[k + 1]])
      [] OTHER -> FALSE

Consume ==
    /\ i <= Len(Runs) /\ l <= Len(Runs[i].ev)
    /\ i' = i
    /\ \E e \in {Runs[i].ev[l]} :
        /\ IF e.o = "mer" THEN Merge(e.a, e.b) ELSE class' = class
        /\ IF TLCEval(Right(e)) THEN l' = l + 1 /\ bad' = bad
           ELSE /\ PrintT(<<"FAULT", i, l, Props>>)
                /\ l' = Len(Runs[i].ev) + 1 /\ bad' = bad + 1

NextRun ==
    /\ i <= Len(Runs) /\ l > Len(Runs[i].ev)
    /\ class' = Single(ElementsOf(i + 1)) /\ i' = i + 1 /\ l' = 1 /\ bad' = bad
    /\ (i = Len(Runs)) => PrintT(<<"DONE", i, bad>>)

Next == Consume \/ NextRun
TraceSpec == Init /\ [][Next]_<<class, i, l, bad>>
NoFault == (i > Len(Runs)) => bad = 0
=============================================================================
