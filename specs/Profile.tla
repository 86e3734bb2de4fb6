------------------------------ MODULE Profile -------------------------------
(* The comparison of the two modes (C27). hist[m][j]: what one instance did   *)
(* in one mode, [imp (its incumbents <<value, time>>, in order), res (1:      *)
(* solved to the end)]. Time is swept: each event is one new incumbent;       *)
(* after the events of a moment a point of the improvement profile is drawn,  *)
(* and one of the cumulative profile if an instance got its final incumbent.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES hist,      \* mode -> instance -> history
          tol,       \* values closer than this count as equal
          ptr,       \* mode -> instance -> events consumed
          inc,       \* mode -> instance -> incumbent, None before the first
          solved,    \* mode -> the instances solved so far
          curve, cum, \* points <<time, hybrid, classic>>
          at, fresh, dirty
pvars == <<hist, tol, ptr, inc, solved, curve, cum, at, fresh, dirty>>

Modes == {"hyb", "cla"}
None == -1
Common == DOMAIN hist["hyb"] \cap DOMAIN hist["cla"]
Diff(a, b) == IF a > b THEN a - b ELSE b - a
Better(a, b) == a # None /\ (b = None \/ (a < b /\ Diff(a, b) >= tol))
CountBetter(m, o) == Cardinality({j \in Common : Better(inc[m][j], inc[o][j])})

Begin(h, t) ==
    /\ hist' = h /\ tol' = t
    /\ LET com == DOMAIN h["hyb"] \cap DOMAIN h["cla"]
       IN /\ ptr' = [m \in Modes |-> [j \in com |-> 0]]
          /\ inc' = [m \in Modes |-> [j \in com |-> None]]
    /\ solved' = [m \in Modes |-> {}]
    /\ curve' = <<>> /\ cum' = <<>> /\ at' = 0 /\ fresh' = FALSE /\ dirty' = FALSE

Pending == {p \in Modes \X Common : ptr[p[1]][p[2]] < Len(hist[p[1]][p[2]].imp)}
Due(p) == hist[p[1]][p[2]].imp[ptr[p[1]][p[2]] + 1]
First == {p \in Pending : \A q \in Pending : Due(p)[2] <= Due(q)[2]}
Ripe == {p \in First : ~fresh \/ Due(p)[2] = at}

Take(m, j) ==
    /\ <<m, j>> \in Ripe
    /\ LET k == ptr[m][j] + 1 e == hist[m][j].imp[k]
           last == k = Len(hist[m][j].imp) /\ hist[m][j].res = 1
       IN /\ ptr' = [ptr EXCEPT ![m][j] = k] /\ inc' = [inc EXCEPT ![m][j] = e[1]] /\ at' = e[2]
          /\ solved' = IF last THEN [solved EXCEPT ![m] = @ \cup {j}] ELSE solved
          /\ dirty' = (dirty \/ last) /\ fresh' = TRUE
    /\ UNCHANGED <<hist, tol, curve, cum>>

Draw ==
    /\ fresh /\ Ripe = {} /\ fresh' = FALSE /\ dirty' = FALSE
    /\ curve' = Append(curve, <<at, CountBetter("hyb", "cla"), CountBetter("cla", "hyb")>>)
    /\ cum' = IF dirty THEN Append(cum, <<at, Cardinality(solved["hyb"]), Cardinality(solved["cla"])>>) ELSE cum
    /\ UNCHANGED <<hist, tol, ptr, inc, solved, at>>
Over == ~fresh /\ Pending = {}

(* --------------------------------------------------- what the sweep means *)
\* The incumbent of an instance at a time, from its history alone.
Held(m, j, t) == LET S == {k \in 1 .. Len(hist[m][j].imp) : hist[m][j].imp[k][2] <= t}
                 IN IF S = {} THEN None ELSE hist[m][j].imp[CHOOSE k \in S : \A q \in S : q <= k][1]
Definition ==
    /\ \A k \in 1 .. Len(curve) : \A m \in Modes :
           LET o == IF m = "hyb" THEN "cla" ELSE "hyb" t == curve[k][1]
           IN curve[k][IF m = "hyb" THEN 2 ELSE 3] = Cardinality({j \in Common : Better(Held(m, j, t), Held(o, j, t))})
    /\ \A k \in 1 .. Len(curve) : curve[k][2] + curve[k][3] <= Cardinality(Common)
    /\ \A k \in 1 .. Len(cum) - 1 : cum[k][1] < cum[k + 1][1] /\ cum[k][2] <= cum[k + 1][2] /\ cum[k][3] <= cum[k + 1][3]
    /\ \A k \in 1 .. Len(curve) - 1 : curve[k][1] < curve[k + 1][1]
    /\ (Over /\ cum # <<>>) => /\ cum[Len(cum)][2] = Cardinality({j \in Common : hist["hyb"][j].res = 1})
                              /\ cum[Len(cum)][3] = Cardinality({j \in Common : hist["cla"][j].res = 1})

(* -------------------------------------------------------------- the tables *)
\* The two cells of a row, from the rounded means: the smaller one is bold, underlined when the difference is significant.
Cells(h, c, significant) ==
    [hyb |-> [v |-> h, bold |-> h < c, under |-> h < c /\ significant],
     cla |-> [v |-> c, bold |-> c < h, under |-> c < h /\ significant]]
=============================================================================
