---------------------------- MODULE ProfileTrace ----------------------------
(* Items of kind profile [h, c (histories by instance: [id, imp, res]), tol,  *)
(* curve, cum]: the histories go through the sweep of Profile, its points are *)
(* compared with those the real analysis wrote. Items of kind table [hyb, cla *)
(* (the results: [id, intr, origin, row (numbers as <<whole, millionths>>)]), *)
(* rows (mean_results.txt), pct, unresolved, cells (the LaTeX table)]: the    *)
(* numbers written are those of the results.                                  *)
EXTENDS Profile, Json, IOUtils, FiniteSetsExt

CONSTANT Props
Items == TLCEval(JsonDeserialize(IOEnv.TRACE))
VARIABLES i, bad, stage
tvars == <<hist, tol, ptr, inc, solved, curve, cum, at, fresh, dirty, i, bad, stage>>
Item == Items[i]

Empty == [m \in Modes |-> <<>>]
Init == /\ hist = Empty /\ tol = 0 /\ ptr = Empty /\ inc = Empty /\ solved = [m \in Modes |-> {}]
        /\ curve = <<>> /\ cum = <<>> /\ at = 0 /\ fresh = FALSE /\ dirty = FALSE
        /\ i = 0 /\ bad = 0 /\ stage = "next"
Ids(s) == {s[k].id : k \in 1 .. Len(s)}
ById(s) == [j \in Ids(s) |-> s[CHOOSE k \in 1 .. Len(s) : s[k].id = j]]
Open == /\ stage = "next" /\ i < Len(Items) /\ i' = i + 1 /\ bad' = bad
        /\ \E it \in {Items[i + 1]} :
              IF it.kind = "profile" THEN stage' = "sweep" /\ Begin([hyb |-> ById(it.h), cla |-> ById(it.c)], it.tol)
              ELSE stage' = "judge" /\ UNCHANGED pvars
Sweep == /\ stage = "sweep" /\ UNCHANGED <<i, bad, stage>>
         /\ \/ LET R == Ripe IN R # {} /\ LET p == CHOOSE p \in R : TRUE IN Take(p[1], p[2])
            \/ Draw

(* numbers: <<whole, millionths>> *)
Add(s, t) == LET us == s[2] + t[2] IN <<s[1] + t[1] + us \div 1000000, us % 1000000>>
Times(s, n) == LET us == s[2] * n IN <<s[1] * n + us \div 1000000, us % 1000000>>
Dist(s, t) == LET d == s[1] - t[1] IN IF d < -100 \/ d > 100 THEN 2000000000 ELSE LET q == d * 1000000 + s[2] - t[2] IN IF q < 0 THEN -q ELSE q
RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN <<0, 0>> ELSE LET k == CHOOSE k \in S : TRUE IN Add(f[k], SumOf(f, S \ {k}))
MeanOk(mean, f, S) == LET n == Cardinality(S) IN Dist(Times(mean, n), SumOf(f, S)) <= 2 * n
\* The 95% interval, for columns of small whole numbers: half width w in thousandths.
Small(f, S) == \A k \in S : f[k][2] = 0 /\ f[k][1] >= 0 /\ f[k][1] <= 60
IntervalOk(w, f, S) ==
    LET n == Cardinality(S)
        v == n * MapThenSumSet(LAMBDA k : f[k][1] * f[k][1], S) - MapThenSumSet(LAMBDA k : f[k][1], S) * MapThenSumSet(LAMBDA k : f[k][1], S)
    IN Small(f, S) /\ v <= 500000 /\ w < 40000 /\ n <= 30 =>
          LET a == w * w b == ((v * 3841) \div (n * n)) \div n
          IN a \div 1000 - b <= a \div 50000 + 4 /\ b - a \div 1000 <= a \div 50000 + 4
Percent(got, c, t) == LET m == IF t = 0 THEN 1 ELSE t d == got * m - 10000 * c IN -m <= d /\ d <= m
Finished(s) == {k \in 1 .. Len(s) : s[k].intr = 0}
OfOrigin(s, o) == Cardinality({k \in Finished(s) : s[k].origin = o})
PctOk(p, s) == /\ Percent(p.resolved, Cardinality(Finished(s)), Len(s))
               /\ Percent(p.nn, OfOrigin(s, "nn"), Cardinality(Finished(s)))
               /\ Percent(p.pnn, OfOrigin(s, "pnn"), Cardinality(Finished(s)))
               /\ Percent(p.tree, OfOrigin(s, "tree"), Cardinality(Finished(s)))
TableOk(it) ==
    LET h == ById(it.hyb) c == ById(it.cla)
        both == {j \in DOMAIN h \cap DOMAIN c : h[j].intr = 0 /\ c[j].intr = 0}
    IN /\ it.ok = 1
       /\ PctOk(it.pct.hyb, it.hyb) /\ PctOk(it.pct.cla, it.cla)
       /\ {it.unresolved.hyb[k] : k \in 1 .. Len(it.unresolved.hyb)} = {j \in DOMAIN h : h[j].intr = 1}
       /\ {it.unresolved.cla[k] : k \in 1 .. Len(it.unresolved.cla)} = {j \in DOMAIN c : c[j].intr = 1}
       /\ \A col \in DOMAIN it.rows :
             LET r == it.rows[col] hc == [j \in both |-> h[j].row[col]] cc == [j \in both |-> c[j].row[col]]
             IN /\ MeanOk(r.hyb.mean, hc, both) /\ IntervalOk(r.hyb.half, hc, both)
                /\ MeanOk(r.cla.mean, cc, both) /\ IntervalOk(r.cla.half, cc, both)
       \* the LaTeX cells, in hundredths, from the rows
       /\ \A col \in DOMAIN it.cells :
             LET x == it.cells[col] r == it.rows[col]
                 Near(v, q) == Dist(<<v \div 100, (v % 100) * 10000>>, q) <= 5001
             IN /\ Near(x.hyb.v, r.hyb.mean) /\ Near(x.cla.v, r.cla.mean)
                /\ Diff(x.hyb.half * 10, r.hyb.half) <= 6 /\ Diff(x.cla.half * 10, r.cla.half) <= 6
                /\ \E s \in (CASE r.p < 0 -> {FALSE} [] r.p < 44 -> {TRUE} [] r.p > 50 -> {FALSE} [] OTHER -> BOOLEAN) :
                      LET y == Cells(x.hyb.v, x.cla.v, s)
                      IN \A m \in Modes : x[m].bold = y[m].bold /\ x[m].under = y[m].under
       /\ \A m \in Modes : it.shown[m].resolved = it.pct[m].resolved /\ it.shown[m].nn = it.pct[m].nn
       /\ it.shown.hyb.pnn = it.pct.hyb.pnn
       /\ LET r == it.rows["prob_best"].hyb IN Dist(<<it.os \div 100, (it.os % 100) * 10000>>, r.mean) <= 5001
       \* the last points of the profiles
       /\ it.last.n = Cardinality(DOMAIN h \cap DOMAIN c)
       /\ it.last.cum # <<>> => /\ it.last.cum[1] = Cardinality({j \in DOMAIN h \cap DOMAIN c : h[j].intr = 0})
                                /\ it.last.cum[2] = Cardinality({j \in DOMAIN h \cap DOMAIN c : c[j].intr = 0})
       /\ LET
              d == [j \in DOMAIN h \cap DOMAIN c |-> Dist(h[j].row["best_value"], c[j].row["best_value"])]
              less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
              H(slack) == Cardinality({j \in DOMAIN d : less(h[j].row["best_value"], c[j].row["best_value"]) /\ d[j] >= it.last.tol + slack})
              C(slack) == Cardinality({j \in DOMAIN d : less(c[j].row["best_value"], h[j].row["best_value"]) /\ d[j] >= it.last.tol + slack})
          IN it.last.curve # <<>> => /\ H(20) <= it.last.curve[1] /\ it.last.curve[1] <= H(-20)
                                     /\ C(20) <= it.last.curve[2] /\ it.last.curve[2] <= C(-20)

Right == IF stage = "sweep" THEN Definition /\ curve = Item.curve /\ cum = Item.cum ELSE TableOk(Item)
Judge == /\ (stage = "sweep" /\ Over) \/ stage = "judge"
         /\ stage' = "next" /\ UNCHANGED pvars /\ i' = i
         /\ IF TLCEval(Right) THEN bad' = bad ELSE PrintT(<<"FAULT", i, 1, Props>>) /\ bad' = bad + 1
         /\ (i = Len(Items)) => PrintT(<<"DONE", i, bad'>>)
Next == Open \/ Sweep \/ Judge
TraceSpec == Init /\ [][Next]_tvars
=============================================================================
