---------------------------- MODULE ServiceTrace ----------------------------
(* Follows recorded answers through Service. An item: [pool, ev]; pool the    *)
(* instances [n, eps, w, p, wt], an event [i, hyb, m, and the answer]; i < 0: *)
(* no answer came. The quantities of w and p are only needed for C21.         *)
EXTENDS Service, Json, IOUtils

Items == TLCEval(JsonDeserialize(IOEnv.TRACE))
VARIABLES i, l, bad
Init == InitService /\ i = 1 /\ l = 1 /\ bad = 0

Request(k, e) ==
    LET q == Items[k].pool[e.i + 1]
    IN [hyb |-> e.hyb, inst |-> e.i, wt |-> q.wt, eps |-> q.eps, n |-> q.n, p |-> q.p]

Consume ==
    /\ i <= Len(Items) /\ l <= Len(Items[i].ev)
    /\ i' = i
    /\ \E e \in {Items[i].ev[l]} :
        IF e.i < 0
        THEN PrintT(<<"FAULT", i, l, Props>>) /\ l' = Len(Items[i].ev) + 1 /\ bad' = bad + 1 /\ UNCHANGED svars
        ELSE \E r \in {Request(i, e)} :
            /\ Answer(r, e)
            /\ LET f == TLCEval(AnswerFaults(r, e))
               IN IF f = {} THEN l' = l + 1 /\ bad' = bad
                  ELSE PrintT(<<"FAULT", i, l, f>>) /\ l' = Len(Items[i].ev) + 1 /\ bad' = bad + 1

NextItem ==
    /\ i <= Len(Items) /\ l > Len(Items[i].ev)
    /\ known' = <<>> /\ classic' = <<>> /\ i' = i + 1 /\ l' = 1 /\ bad' = bad
    /\ (i = Len(Items)) => PrintT(<<"DONE", i, bad>>)

Next == Consume \/ NextItem
TraceSpec == Init /\ [][Next]_<<svars, i, l, bad>>
=============================================================================
