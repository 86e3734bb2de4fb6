------------------------------ MODULE SeqTrace ------------------------------
(* Follows recorded runs of the list containers through Seqs. An event:       *)
(* [o, x, k, get (the elements by index 0 .. size, so one too many),          *)
(* it (the elements met by an iteration), n (size), e (1: reported empty)];   *)
(* get and it are left out ("skip") when they were not asked for.             *)
EXTENDS Seqs, Json, IOUtils

CONSTANT Props
Runs == TLCEval(JsonDeserialize(IOEnv.TRACE))
VARIABLES i, l, bad

Init == s = <<>> /\ i = 1 /\ l = 1 /\ bad = 0

Effect(e) ==
    CASE e.o = "addb" -> AddBottom(e.x)
      [] e.o = "addi" -> AddIndex(e.x, e.k)
      [] e.o = "delb" -> DelBottom
      [] e.o = "deli" -> DelIndex(e.k)
      [] OTHER        -> s' = s

Right(e) ==
    /\ e.o \in {"addb", "addi", "delb", "deli"}
    /\ e.n = Len(s')
    /\ e.e = IF s' = <<>> THEN 1 ELSE 0
    /\ e.skip = 1 \/ e.get = Append(s', 0)
    /\ e.skip = 1 \/ e.it = s'

Consume ==
    /\ i <= Len(Runs) /\ l <= Len(Runs[i].ev)
    /\ i' = i
    /\ \E e \in {Runs[i].ev[l]} :
        /\ Effect(e)
        /\ IF TLCEval(Right(e)) THEN l' = l + 1 /\ bad' = bad
           ELSE /\ PrintT(<<"FAULT", i, l, Props>>)
                /\ l' = Len(Runs[i].ev) + 1 /\ bad' = bad + 1

NextRun ==
    /\ i <= Len(Runs) /\ l > Len(Runs[i].ev)
    /\ s' = <<>> /\ i' = i + 1 /\ l' = 1 /\ bad' = bad
    /\ (i = Len(Runs)) => PrintT(<<"DONE", i, bad>>)

Next == Consume \/ NextRun
TraceSpec == Init /\ [][Next]_<<s, i, l, bad>>
NoFault == (i > Len(Runs)) => bad = 0
=============================================================================
