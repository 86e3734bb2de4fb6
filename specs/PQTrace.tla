------------------------------ MODULE PQTrace -------------------------------
(* Follows recorded operation sequences of the heap through PQueue.           *)
(* An event: [o, k, v, r (answer), n (number of elements reported),           *)
(* x (keys present with their values, after the operation)].                  *)
EXTENDS PQueue, Json, IOUtils

CONSTANT Props
Runs == TLCEval(JsonDeserialize(IOEnv.TRACE))
VARIABLES i, l, bad

Init == q = Empty /\ i = 1 /\ l = 1 /\ bad = 0

Effect(e) ==
    CASE e.o = "ins" -> Insert(e.k, e.v)
      [] e.o = "dec" -> Decrease(e.k, e.v)
      [] e.o = "del" -> Delete(e.k)
      [] e.o = "ext" -> Remove(e.r)
      [] OTHER       -> q' = q

Right(e) ==
    /\ e.o \in {"ins", "dec", "del", "ext"}
    /\ e.o = "ext" => e.r \in Answers
    /\ e.n = Cardinality(DOMAIN q')
    /\ e.x = <<>> \/ {<<p[1], p[2]>> : p \in {e.x[j] : j \in 1 .. Len(e.x)}} = {<<k, q'[k]>> : k \in DOMAIN q'}

Consume ==
    /\ i <= Len(Runs) /\ l <= Len(Runs[i].ev)
    /\ i' = i
    /\ \E e \in {Runs[i].ev[l]} :
        /\ Effect(e)
        /\ IF TLCEval(Right(e)) THEN l' = l + 1 /\ bad' = bad
           ELSE /\ PrintT(<<"FAULT", i, l, Props>>)
                /\ l' = Len(Runs[i].ev) + 1 /\ bad' = bad + 1

NextRun ==
    /\ i <= Len(Runs) /\ l > Len(Runs[i].ev)
    /\ q' = Empty /\ i' = i + 1 /\ l' = 1 /\ bad' = bad
    /\ (i = Len(Runs)) => PrintT(<<"DONE", i, bad>>)

Next == Consume \/ NextRun
TraceSpec == Init /\ [][Next]_<<q, i, l, bad>>
NoFault == (i > Len(Runs)) => bad = 0
=============================================================================
