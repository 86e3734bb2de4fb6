---------------------------- MODULE ReaderTrace -----------------------------
(* Files read by the code: items [file, hyb, max, out]; out: [o] with o       *)
(* "rejected" or "crash", or "graph" with the graph. The file is read by the  *)
(* machine of Reader, then the outcomes are compared. For TSPLIB files        *)
(* (kind = "t"): [kind, type, rows, max, out]; a row is <<x, y>> or Bad, and  *)
(* the weight of each edge must be the distance of its ends.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Props
Items == TLCEval(JsonDeserialize(IOEnv.TRACE))
VARIABLES i, bad, built, hyb, file, row, col, xy, edges, near, verdict
mvars == <<built, hyb, file, row, col, xy, edges, near, verdict>>
M == INSTANCE Reader
Cur == Items[i]

Init == /\ i = 0 /\ bad = 0 /\ built = 0 /\ hyb = 0
        /\ file = <<>> /\ row = 0 /\ col = 0 /\ xy = <<>> /\ edges = <<>> /\ near = {} /\ verdict = "next"

\* A new item. A TSPLIB file is not read step by step: the rows are the graph.
Begin ==
    /\ i < Len(Items) /\ verdict = "next"
    /\ i' = i + 1 /\ bad' = bad
    /\ row' = 0 /\ col' = 0 /\ xy' = <<>> /\ edges' = <<>> /\ near' = {}
    /\ LET k == Items[i + 1]
       IN /\ built' = k.max /\ hyb' = k.hyb
          /\ IF k.kind = "c" THEN file' = k.file /\ verdict' = "reading"
             ELSE /\ file' = <<>>
               /\ verdict' = IF k.type = "EUC_2D" /\ Len(k.rows) <= k.max /\ \A j \in 1 .. Len(k.rows) : k.rows[j] # <<>>
                             THEN "accepted" ELSE "rejected"

Read == verdict = "reading" /\ M!ReadNext /\ UNCHANGED <<i, bad>>

\* Weights of TSPLIB graphs: in hundredths on small whole coordinates; code 1 or 0 says whether the number is the distance.
Sq(x) == x * x
DistOk(k, a, b, e) ==
    /\ e.p = 0
    /\ IF k.grid = 1 THEN LET d2 == Sq(k.rows[a + 1][1] - k.rows[b + 1][1]) + Sq(k.rows[a + 1][2] - k.rows[b + 1][2])
                          IN e.w >= 0 /\ (e.w = 0 \/ Sq(e.w - 1) <= d2 * 10000) /\ d2 * 10000 <= Sq(e.w + 1)
       ELSE e.w = 1
TspOk(k, g) ==
    LET n == Len(k.rows)
    IN /\ g.n = n /\ Len(g.nodes) = n
       /\ \A j \in 1 .. n : /\ g.nodes[j].pos = j - 1 /\ <<g.nodes[j].x, g.nodes[j].y>> = k.rows[j]
                            /\ Len(g.nodes[j].nb) = n - 1
                            /\ {g.nodes[j].nb[q] : q \in 1 .. Len(g.nodes[j].nb)} = (0 .. n - 1) \ {j - 1}
       /\ g.m = (n * (n - 1)) \div 2 /\ Len(g.edges) = g.m
       /\ Cardinality({{e.s, e.d} : e \in {g.edges[j] : j \in 1 .. g.m}}) = g.m
       /\ \A j \in 1 .. g.m : LET e == g.edges[j]
                              IN /\ e.s # e.d /\ e.s \in 0 .. n - 1 /\ e.d \in 0 .. n - 1
                                 /\ DistOk(k, e.s, e.d, e)
                                 /\ e.pos = j - 1 /\ g.look[2 * j - 1] = e /\ g.look[2 * j] = e
       /\ g.cost = 1

Same(k) ==
    IF verdict = "rejected" THEN k.out.o = "rejected"
    ELSE /\ k.out.o = "graph"
         /\ IF k.kind = "c" THEN M!GraphOk(k.out, Len(file) - 1, xy, {edges[j] : j \in 1 .. Len(edges)})
            ELSE TspOk(k, k.out)

Compare ==
    /\ verdict \in {"accepted", "rejected"}
    /\ verdict' = "next" /\ UNCHANGED <<i, built, hyb, file, row, col, xy, edges, near>>
    /\ IF TLCEval(Same(Cur)) THEN bad' = bad
       ELSE PrintT(<<"FAULT", i, 1, Props>>) /\ bad' = bad + 1
    /\ (i = Len(Items)) => PrintT(<<"DONE", i, bad'>>)

Next == Begin \/ Read \/ Compare
TraceSpec == Init /\ [][Next]_<<mvars, i, bad>>
=============================================================================
