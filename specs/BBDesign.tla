------------------------------ MODULE BBDesign ------------------------------
(* Every search that takes only steps allowed by BranchBound, on small        *)
(* instances: any order of exploration, any sound bound, any forced decision, *)
(* any branching edge that the properties allow, any time of interruption.    *)
(* Checks that the demands on the single steps (bounds C04, incumbent C05,    *)
(* order C07, branching C08, forced decisions C09, limit C10, statistics C11) *)
(* together give the global guarantees: no better tour is ever lost (C03), an *)
(* uninterrupted search ends with an optimal tour (C01), what is reported is  *)
(* a tour of the instance (C02), the search ends.                             *)
EXTENDS BranchBound

CONSTANTS Cases,        \* the numbers of the instances to explore
          MaxGen,       \* bound on the number of generated subproblems
          Forcing       \* how many edges may be decided by one forced decision

VARIABLES case, tick
dvars == <<vars, case, tick>>

Sym(n, f) == [a \in 1 .. n |-> [b \in 1 .. n |-> IF a = b THEN 0 ELSE IF a < b THEN f[<<a - 1, b - 1>>] ELSE f[<<b - 1, a - 1>>]]]
Pts(n) == {<<a, b>> \in (0 .. (n - 1)) \X (0 .. (n - 1)) : a < b}
Make(n, f, pr, eps, hyb) ==
    LET I == [n |-> n, w |-> Sym(n, f), p |-> Sym(n, pr), eps |-> eps, hyb |-> hyb]
        T == {S \in Walks(0, 1 .. (n - 1), {}) : \A e \in S : W(I, e) > 0}
    IN [n |-> n, w |-> I.w, p |-> I.p, eps |-> eps, hyb |-> hyb, T |-> {[c |-> Cost(I, S), s |-> S] : S \in T}]

D(a) == a[1] * 10 + a[2]
Triangle == Make(3, [a \in Pts(3) |-> 5 + D(a)], [a \in Pts(3) |-> 0], 0, 0)
K4 == Make(4, [a \in Pts(4) |-> CASE D(a) = 1 -> 4 [] D(a) = 2 -> 1 [] D(a) = 3 -> 7 [] D(a) = 12 -> 9 [] D(a) = 13 -> 2 [] OTHER -> 5],
           [a \in Pts(4) |-> IF D(a) \in {1, 23} THEN 900000 ELSE 100000], 0, 0)
K4Tol == [K4 EXCEPT !.eps = 3]
K4Hyb == [K4 EXCEPT !.hyb = 1]
K4Ties == Make(4, [a \in Pts(4) |-> 1 + (D(a) % 2)], [a \in Pts(4) |-> 500000], 0, 1)
\* four vertices, one edge missing: one tour
K4Less == Make(4, [a \in Pts(4) |-> IF D(a) = 1 THEN 0 ELSE 2 + D(a)], [a \in Pts(4) |-> 0], 0, 0)
\* a star with one more edge: no tour
NoTours == Make(4, [a \in Pts(4) |-> IF D(a) \in {1, 2, 3, 12} THEN 3 ELSE 0], [a \in Pts(4) |-> 0], 0, 0)
\* five vertices, a wheel without a spoke
Five == Make(5, [a \in Pts(5) |-> IF D(a) \in {13, 24} THEN 0 ELSE 1 + ((3 * D(a)) % 7)], [a \in Pts(5) |-> 0], 0, 0)

InstNo == TLCEval([k \in 1 .. 8 |-> CASE k = 1 -> Triangle [] k = 2 -> K4 [] k = 3 -> K4Tol [] k = 4 -> K4Hyb [] k = 5 -> K4Ties
                                    [] k = 6 -> K4Less [] k = 7 -> NoTours [] OTHER -> Five])
J == InstNo[case]

Root == [id |-> 0, fa |-> 0, lvl |-> 1, val |-> 0, prob |-> 0, M |-> {}, F |-> {}]

\* The bounds to try for a node: none, half way, and the tightest.
Tight(I, nd) == LET C == {t.c : t \in {u \in I.T : In(u, nd)}} IN IF C = {} THEN INF ELSE Min(C)
Vals(I, nd) == {0, Tight(I, nd)}

StartTours(I) ==
    {[cost |-> t.c, tour |-> t.s, kind |-> k, id |-> 0, lvl |-> 0, time |-> 0] :
        t \in I.T, k \in IF I.hyb = 1 THEN {"nn", "pnn"} ELSE {"nn"}} \cup {NoTour}

Ok(S) == S = {}

DInit == InitBB /\ case \in Cases /\ tick = 0

DStart ==
    /\ stage = "none"
    /\ \E b \in StartTours(J) : Start(J, Root, b, tick)   \* any first tour or none, not only the greedy ones
    /\ UNCHANGED <<case, tick>>

\* processor time may run out anywhere
DTime == /\ stage # "ended" /\ tick = 0 /\ tick' = Limit + 1 /\ now' = tick'
         /\ UNCHANGED <<open, cur, stage, made, pend, br, best, cnt, case>>

DPop ==
    /\ stage = "idle"
    /\ \E nd \in open : Ok(PopFaults(J, nd, tick)) /\ Pop(J, nd, tick)
    /\ UNCHANGED <<case, tick>>

Improve == {best} \cup {[cost |-> t.c, tour |-> t.s, kind |-> "tree", id |-> cur.id, lvl |-> cur.lvl, time |-> 0] :
                        t \in {u \in Cheaper(J, best.cost) : In(u, cur)}}

DBound ==
    /\ stage = "popped"
    /\ \E type \in {"open", "bound", "infeasible", "tour"} : \E v \in Vals(J, cur) : \E b \in Improve :
       \E e \in {-1} \cup (Edges(J) \ (cur.M \cup cur.F)) :
        /\ type # "open" => e = -1 /\ v = 0
        /\ b # best => type \in {"tour", "open"}
        /\ (e # -1) => cnt.gen + 2 <= MaxGen \* the bound of the exploration
        /\ LET r == [type |-> type, val |-> v, prob |-> 0, br |-> e, time |-> 0, nrel |-> 1, at |-> 1, best |-> b, R |-> <<>>]
           IN Ok(BoundFaults(J, 0, r)) /\ Bound(J, r, tick)
    /\ UNCHANGED <<case, tick>>

\* Forced decisions: at most Forcing more edges than before.
More(nd) ==
    LET free == Edges(J) \ (nd.M \cup nd.F)
        S == {X \in SUBSET free : Cardinality(X) <= Forcing}
    IN {[nd EXCEPT !.M = @ \cup X, !.F = @ \cup Y] : X \in S, Y \in S}

DFix ==
    /\ stage = "bounded"
    /\ \E nd \in More(cur) :
        /\ nd.M \cap nd.F = {} /\ Cardinality((nd.M \cup nd.F) \ (cur.M \cup cur.F)) <= Forcing
        /\ Ok(FixFaults(J, nd.M, nd.F)) /\ Fix(J, nd.M, nd.F, tick)
    /\ UNCHANGED <<case, tick>>

DChild ==
    /\ stage \in {"bounded", "fixed"} /\ pend = {} /\ Len(made) < 2
    /\ \E k \in {0, 1} :
        LET h == Half(J, k = 1)
            c == [h EXCEPT !.id = cnt.gen, !.fa = cur.id, !.lvl = cur.lvl + 1]
        IN Ok(ChildFaults(J, c)) /\ Child(J, c, tick)
    /\ UNCHANGED <<case, tick>>

DQueue ==
    /\ pend # {}
    /\ \E c \in More(PendNode) :
        /\ c.M \cap c.F = {} /\ Cardinality((c.M \cup c.F) \ (PendNode.M \cup PendNode.F)) <= Forcing
        /\ Ok(QueueFaults(J, c)) /\ Queue(J, c, tick)
    /\ UNCHANGED <<case, tick>>

DDrop ==
    /\ pend # {}
    /\ Ok(DropFaults(J, PendNode)) /\ Drop(J, PendNode, tick)
    /\ UNCHANGED <<case, tick>>

\* A closed walk over a tour.
RECURSIVE WalkFrom(_, _, _)
WalkFrom(S, v, k) ==
    IF k = 0 THEN <<>>
    ELSE LET e == CHOOSE f \in S : Touches(f, v)
             u == IF Lo(e) = v THEN Hi(e) ELSE Lo(e)
         IN <<<<v, u>>>> \o WalkFrom(S \ {e}, u, k - 1)

TheReport(intr) ==
    LET S == best.tour
    IN [cost |-> best.cost, value |-> best.cost, ncycle |-> Cardinality(S), tour |-> S, kind |-> best.kind, id |-> best.id,
        lvl |-> best.lvl, time |-> best.time, prob |-> IF J.hyb = 1 /\ S # {} THEN ProbSum(J, S) \div J.n ELSE 0,
        gen |-> cnt.gen, expl |-> cnt.expl, lvls |-> cnt.lvl, fixed |-> cnt.fixed, intr |-> intr,
        walk |-> WalkFrom(S, 0, Cardinality(S)), pcost |-> best.cost, pkind |-> best.kind, same |-> 1]

DReport ==
    /\ stage = "idle"
    /\ \/ open = {} /\ tick <= Limit /\ Report(J, TheReport(0), tick)
       \/ tick > Limit /\ Report(J, TheReport(1), tick)
    /\ UNCHANGED <<case, tick>>

DNext == DStart \/ DTime \/ DPop \/ DBound \/ DFix \/ DChild \/ DQueue \/ DDrop \/ DReport
DSpec == DInit /\ [][DNext]_dvars /\ WF_dvars(DNext)

(* what follows *)
NothingLost == stage # "none" => Covered(J)                                            \* C03
Optimal == (stage = "ended" /\ open = {}) => \A t \in J.T : t.c >= best.cost - J.eps    \* C01
RealTour == best = NoTour \/ (IsTour(J, best.tour) /\ best.cost = Cost(J, best.tour))  \* C02
Honest == \A nd \in open : \A t \in J.T : In(t, nd) => nd.val <= t.c                   \* C04
Consistency == \A nd \in Live : br \notin nd.M \cap nd.F /\ nd.M \cap nd.F = {}
Disjoint == \A a, b \in open : a # b => \A t \in J.T : ~(In(t, a) /\ In(t, b))         \* the halves share no tour
Counted == stage # "none" => cnt.gen % 2 = IF Len(made) = 1 THEN 0 ELSE 1              \* C11
OnlyBetter == [][stage # "none" => (best' = best \/ best'.cost < best.cost)]_dvars    \* C05
NotLate == [][(stage = "idle" /\ stage' = "popped") => tick <= Limit]_dvars            \* C10
EndsWell ==                                                                            \* what is reported is right
    /\ (stage = "idle" /\ open = {} /\ tick <= Limit) => Ok(ReportFaults(J, TheReport(0)))
    /\ (stage = "idle" /\ tick > Limit) => Ok(ReportFaults(J, TheReport(1)))
Ends == <>(stage = "ended" \/ cnt.gen + 2 > MaxGen)
=============================================================================
