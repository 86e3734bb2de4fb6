---------------------------- MODULE ReportTrace -----------------------------
(* Result files of the real solver read by the real analysis: items           *)
(* [files, got]. The files go through the machine of Report one by one; its   *)
(* statistics are compared with what the analysis returned. Items of kind     *)
(* cycle [n, ok, walk, xy, cost]: the cycle of a completed result file and    *)
(* the cities listed in it, in ten thousandths.                               *)
EXTENDS Report, Json, IOUtils, FiniteSetsExt

CONSTANT Props
Items == TLCEval(JsonDeserialize(IOEnv.TRACE))
VARIABLES i, bad, f, k
tvars == <<stage, cur, folder, todo, stats, i, bad, f, k>>
Item == Items[i]
File == Item.files[f]

Init == i = 0 /\ bad = 0 /\ f = 0 /\ k = 0 /\ Fresh
Begin == /\ stage = "next" \/ i = 0
         /\ i < Len(Items) /\ i' = i + 1 /\ bad' = bad /\ f' = 0 /\ k' = 0
         /\ stage' = (IF Items[i + 1].kind = "cycle" THEN "cycle" ELSE "idle") /\ cur' = Blank /\ folder' = <<>> /\ todo' = {} /\ stats' = Nothing
Keep == UNCHANGED <<i, bad>>
Summary(r) == [origin |-> r.origin, intr |-> r.intr, cost |-> r.cost, prob |-> r.prob, lvl |-> r.lvl, no |-> r.no, best |-> r.best,
               elapsed |-> r.elapsed, gen |-> r.gen, expl |-> r.expl, lvls |-> r.lvls]
Solve == /\ i > 0 /\ Keep
         /\ \/ stage = "idle" /\ f < Len(Item.files) /\ Start(Item.files[f + 1].id) /\ f' = f + 1 /\ k' = 0
            \/ stage = "solving" /\ k < Len(File.imp) /\ Improve(File.imp[k + 1][1], File.imp[k + 1][2]) /\ k' = k + 1 /\ UNCHANGED f
            \/ stage = "solving" /\ k = Len(File.imp) /\ Finish(Summary(File)) /\ UNCHANGED <<f, k>>
            \/ Complete(File.taken) /\ UNCHANGED <<f, k>>
            \/ stage = "idle" /\ f = Len(Item.files) /\ Open /\ UNCHANGED <<f, k>>
            \/ todo # {} /\ Read(CHOOSE id \in todo : \A o \in todo : id <= o) /\ UNCHANGED <<f, k>>
\* A history that the machine does not have.
Stuck == stage = "solving" /\ k = Len(File.imp) /\ ~((File.origin \in {"tree", "ascent"}) <=> (cur.imp # <<>>))

Dist(s, t) == LET d == s[1] - t[1] IN IF d < -100 \/ d > 100 THEN 2000000000 ELSE LET q == d * 1000000 + s[2] - t[2] IN IF q < 0 THEN -q ELSE q
Times == {"total_time", "time_bb", "time_to_best"}
RowOk(got, want) == \A c \in DOMAIN want : IF c \in Times THEN Dist(got[c], want[c]) <= 1 ELSE got[c] = want[c]
\* Improvements are printed in single precision.
ImpOk(got, want) == /\ Len(got) = Len(want)
                    /\ \A q \in 1 .. Len(want) : got[q][1] = want[q][1] /\ Dist(got[q][2], want[q][2]) <= 3 + want[q][2][1] \div 10
\* A percentage in hundredths is that of c out of t, rounded.
Percent(got, c, t) == LET m == IF t = 0 THEN 1 ELSE t d == got * m - 10000 * c IN -m <= d /\ d <= m
CountOf(o) == stats.closed[o]
GotOf(q) == {x \in 1 .. Len(Item.got.partial) : Item.got.partial[x].id = q}
Judge ==
    /\ stage = "reading" /\ todo = {} /\ Item.got.ok = 1
    /\ LET g == Item.got r == stats.resolved
       IN /\ Percent(g.resolved, r, Len(Item.files))
          /\ \A o \in {"nn", "pnn", "tree", "ascent"} : \E x \in 0 .. CountOf("none") : Percent(g.closed[o], CountOf(o) + x, r)
          /\ r > 0 => LET d == g.closed.nn + g.closed.pnn + g.closed.tree + g.closed.ascent - 10000 IN -3 <= d /\ d <= 3
          /\ {g.unresolved[x] : x \in 1 .. Len(g.unresolved)} = stats.unresolved /\ Len(g.unresolved) = Cardinality(stats.unresolved)
          /\ Len(g.per) = Cardinality(DOMAIN stats.per)
          /\ \A x \in 1 .. Len(g.per) : g.per[x].id \in DOMAIN stats.per /\ RowOk(g.per[x].row, stats.per[g.per[x].id])
          /\ Len(g.partial) = Cardinality(DOMAIN stats.partial)
          /\ \A id \in DOMAIN stats.partial : \E x \in GotOf(id) :
                 g.partial[x].resolved = stats.partial[id].resolved /\ ImpOk(g.partial[x].imp, stats.partial[id].imp)
\* The walk visits every city once and its length over the listed cities is the cost.
Root(s) == CHOOSE r \in 0 .. 30000 : r * r <= s /\ s < (r + 1) * (r + 1)
Edge(e) == LET u == Item.xy[e[1] + 1] v == Item.xy[e[2] + 1] IN Root((u[1] - v[1]) * (u[1] - v[1]) + (u[2] - v[2]) * (u[2] - v[2]))
CycleJudge ==
    LET c == Item w == Item.walk
    IN /\ c.ok = 1 /\ Len(w) = c.n /\ {w[q][1] : q \in 1 .. c.n} = 0 .. c.n - 1
       /\ \A q \in 1 .. c.n : w[q][2] = w[(q % c.n) + 1][1]
       /\ LET d == MapThenSumSet(LAMBDA q : Edge(w[q]), 1 .. c.n) - c.cost IN -3 * c.n <= d /\ d <= c.n
End == /\ (stage = "reading" /\ todo = {}) \/ Stuck \/ stage = "cycle"
       /\ i > 0 /\ stage' = "next" /\ UNCHANGED <<cur, folder, todo, stats, i, f, k>>
       /\ IF TLCEval(IF stage = "cycle" THEN CycleJudge ELSE Judge) THEN bad' = bad
          ELSE PrintT(<<"FAULT", i, 1, Props>>) /\ bad' = bad + 1
       /\ (i = Len(Items)) => PrintT(<<"DONE", i, bad'>>)
Next == Begin \/ Solve \/ End
TraceSpec == Init /\ [][Next]_tvars
=============================================================================
