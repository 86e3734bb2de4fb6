---------------------------- MODULE BranchBound ----------------------------
(* The branch-and-bound search as a state machine: its state, the effect of   *)
(* every step, and for every step what the properties C01..C26 demand of it.  *)
(* The operators XxxFaults give the set of the properties that a step breaks. *)
(* BBDesign lets the search take every fault-free step and checks the global  *)
(* properties; BBTrace follows a recorded execution of the C solver and       *)
(* collects the faults of its steps.                                          *)
(*                                                                            *)
(* The instance I (see Tsp) additionally has T, a set of tours [c, s] (cost,   *)
(* edges), and full, TRUE when T holds all of them.                           *)
EXTENDS Tsp, TLC

CONSTANT Props          \* the properties to evaluate

VARIABLES
    open,       \* the open subproblems, a set of nodes
    cur,        \* the subproblem being processed
    stage,      \* "none", "idle", "popped", "bounded", "fixed", "ended"
    made,       \* the children generated for cur, a sequence of nodes
    pend,       \* the child generated but neither queued nor dropped yet, in a set
    br,         \* the edge chosen for branching, -1 for none
    best,       \* the best tour known: [cost, tour, kind, id, lvl, time]
    cnt,        \* [gen, expl, lvl, fixed, maxid]
    now         \* processor time since the start, in milliseconds

vars == <<open, cur, stage, made, pend, br, best, cnt, now>>

\* A node is a record [id, fa, lvl, val, prob, M, F].
Nil == [id |-> -1, fa |-> -1, lvl |-> 0, val |-> 0, prob |-> 0, M |-> {}, F |-> {}]
NoTour == [cost |-> INF, tour |-> {}, kind |-> "none", id |-> 0, lvl |-> 0, time |-> 0]
ZeroCnt == [gen |-> 0, expl |-> 0, lvl |-> 0, fixed |-> 0, maxid |-> 0]

Limit == 600999         \* 600 full seconds are not more than 600 seconds

Fault(p, ok) == IF p \notin Props \/ ok THEN {} ELSE {p}

Cheaper(I, c) == {t \in I.T : t.c < c}
Better(I) == Cheaper(I, best.cost - I.eps)
In(t, nd) == Consistent(t.s, nd.M, nd.F)

InitBB ==
    /\ open = {} /\ cur = Nil /\ stage = "none" /\ made = <<>> /\ pend = {} /\ br = -1
    /\ best = NoTour /\ cnt = ZeroCnt /\ now = 0

(* ------------------------------- start ---------------------------------- *)
\* After the greedy tours and the choice of the starting vertex, before the first subproblem is taken, at time t.
\* Time passes from the start on (the recordings have a clock that moves at every look).

StartCosts(I) ==
    {NearestCosts(I, v) : v \in Vertices(I)}
    \cup (IF I.hyb = 1 THEN {LikeliestCosts(I, v) : v \in Vertices(I)} ELSE {})

StartTourOk(I, b) ==
    LET all == TLCEval(StartCosts(I))
        high == {Max(S) : S \in all}
        low == {Min(S) : S \in all}
    IN b.cost >= Min(low) /\ b.cost <= Min(high) /\ b.cost \in UNION all

StartKindOk(I, b) ==
    \/ b.cost = INF
    \/ b.kind = "nn" /\ \E v \in Vertices(I) : b.cost \in NearestCosts(I, v)
    \/ b.kind = "pnn" /\ I.hyb = 1 /\ \E v \in Vertices(I) : b.cost \in LikeliestCosts(I, v)

CandidateOk(I, cand) ==
    LET tree == TLCEval([v \in Vertices(I) |-> MinOneTree(I, v)])
        cost == TLCEval([v \in Vertices(I) |-> Cost(I, tree[v])])
        prob == TLCEval([v \in Vertices(I) |-> ProbSum(I, tree[v])])
        unique == Cardinality({W(I, e) : e \in Edges(I)}) = Cardinality(Edges(I))
    IN /\ cand \in Vertices(I)
       /\ \A v \in Vertices(I) : cost[v] <= cost[cand] + I.eps
       /\ (I.hyb = 1 /\ unique) =>
            \A v \in Vertices(I) :
                ~(cost[v] > cost[cand] /\ prob[v] - prob[cand] >= I.n * (BetterProb + ProbSlack))

StartFaults(I, root, b, cand, t) ==
    Fault("C05", "C05" \in Props => StartTourOk(I, b))
    \cup Fault("C06", ("C06" \in Props /\ I.T # {}) => CandidateOk(I, cand))
    \cup Fault("C11", "C11" \in Props => /\ b.id = 0 /\ b.lvl = 0 /\ StartKindOk(I, b)
                                       /\ (b.cost < INF => b.time > 0 /\ b.time <= t + 5))

Start(I, root, b, t) ==
    /\ open' = {root} /\ cur' = Nil /\ stage' = "idle" /\ made' = <<>> /\ pend' = {} /\ br' = -1
    /\ best' = b
    /\ cnt' = [gen |-> 1, expl |-> 0, lvl |-> 1, fixed |-> 0, maxid |-> root.id]
    /\ now' = t

(* -------------------------------- pop ----------------------------------- *)
\* Subproblem a is preferred to b for certain (whatever the rounding of the recorded numbers).
Preferred(I, a, b) ==
    \/ b.val - a.val > I.eps
    \/ I.hyb = 1 /\ b.val > a.val /\ a.prob - b.prob >= BetterProb + ProbSlack

PopFaults(I, nd, t) ==
    Fault("C07", /\ \E o \in open : o.id = nd.id
                 /\ \A o \in open : ~Preferred(I, o, nd)
                 /\ \A o \in open : (o.fa = nd.fa /\ o.val = nd.val /\ o.prob = nd.prob) => o.id >= nd.id)
    \cup Fault("C08", stage = "idle")
    \cup Fault("C10", t <= Limit)

Pop(I, nd, t) ==
    /\ open' = {o \in open : o.id # nd.id}
    /\ cur' = nd /\ stage' = "popped" /\ made' = <<>> /\ pend' = {} /\ br' = -1
    /\ now' = t
    /\ UNCHANGED <<best, cnt>>

(* ------------------------------- bound ---------------------------------- *)
\* The outcome r of bounding the node taken: type ("open", "bound", "infeasible" or "tour"), val, prob, edge chosen
\* (-1: none), start time of the node, the best tour afterwards, the relaxations R and their number nrel.
\* A relaxation is [ok (not infeasible), T (edges), w (adjusted weights, the rows of a matrix)].

Discarded(r) == r.type # "open" \/ r.br = -1

BoundOk(I, r) ==
    \* the bound that goes with the node from now on
    r.type = "open" => \A t \in I.T : t.c < r.val => ~In(t, cur)

DiscardOk(I, r) ==
    Discarded(r) =>
        /\ \A t \in Cheaper(I, r.best.cost - I.eps) : ~In(t, cur)
        /\ r.type = "infeasible" => \A t \in I.T : ~In(t, cur)

ImprovementOk(r) == r.best = best \/ r.best.cost < best.cost

FoundOk(r) ==
    r.best # best =>
        /\ r.best.id = cur.id /\ r.best.lvl = cur.lvl
        /\ r.best.kind = IF r.at = 1 THEN "tree" ELSE "ascent"
        /\ r.best.time = r.time

RelaxationOk(I, cand, rel, k) ==
    LET wt1(e) == IF k = 1 THEN W(I, e) ELSE rel.w[Lo(e) * I.n + Hi(e) + 1]
    IN IF rel.ok
       THEN /\ IsOneTree(I, cand, cur.M, cur.F, rel.T)
            /\ IsMinimum(I, cand, cur.M, cur.F, rel.T, wt1, IF k = 1 THEN 0 ELSE 2)
       ELSE ~OneTreeExists(I, cand, cur.M, cur.F)

\* How far ten times the frequency of an edge among the last ten relaxations is from five.
Distance(R, e) ==
    LET last == {k \in 1 .. Len(R) : k > Len(R) - 10}
        f == Cardinality({k \in last : e \in R[k].T})
    IN <<f, IF f >= 5 THEN f - 5 ELSE 5 - f>>

\* The edge chosen is right for one of the relaxations that may be the best one.
BranchEdgeOk(I, R, b, val) ==
    \E k \in 1 .. Len(R) :
        /\ R[k].ok /\ R[k].T \subseteq Edges(I) /\ Cost(I, R[k].T) = val
        /\ LET free == {e \in R[k].T : e \notin cur.M /\ e \notin cur.F}
           IN IF b = -1 THEN free = {}
              ELSE /\ b \in free
                   /\ \A e \in free : Distance(R, e)[2] >= Distance(R, b)[2]
                   /\ I.hyb = 1 => \A e \in free :
                        Distance(R, e)[1] = Distance(R, b)[1] => Pr(I, e) <= Pr(I, b) + ProbSlack

BoundFaults(I, cand, r) ==
    Fault("C04", "C04" \in Props => BoundOk(I, r) /\ DiscardOk(I, r))
    \cup Fault("C05", ImprovementOk(r))
    \cup Fault("C11", FoundOk(r))
    \cup Fault("C13", "C13" \in Props => \A k \in 1 .. Len(r.R) : RelaxationOk(I, cand, r.R[k], k))
    \cup Fault("C26", ("C26" \in Props /\ r.type = "open") => BranchEdgeOk(I, r.R, r.br, r.val))

Bound(I, r, t) ==
    /\ cur' = IF Discarded(r) THEN Nil ELSE [cur EXCEPT !.val = r.val, !.prob = r.prob]
    /\ stage' = IF Discarded(r) THEN "idle" ELSE "bounded"
    /\ br' = IF Discarded(r) THEN -1 ELSE r.br
    /\ best' = r.best
    /\ cnt' = [cnt EXCEPT !.expl = @ + (IF r.nrel > 0 THEN 1 ELSE 0)]
    /\ now' = t
    /\ UNCHANGED <<open, made, pend>>

(* -------------------------------- fix ----------------------------------- *)
\* Decisions forced by comparing replacement costs with the best tour.

\* The tours of node a that node b no longer admits.
Excluded(I, a, b) == {t \in I.T : In(t, a) /\ ~In(t, b)}

FixFaults(I, M, F) ==
    Fault("C09", "C09" \in Props => \A t \in Excluded(I, cur, [cur EXCEPT !.M = M, !.F = F]) : t.c >= best.cost)

Decided(nd) == Cardinality(nd.M \cup nd.F)

Fix(I, M, F, t) ==
    /\ cur' = [cur EXCEPT !.M = M, !.F = F]
    /\ stage' = "fixed"
    /\ cnt' = [cnt EXCEPT !.fixed = @ + Cardinality((M \cup F) \ (cur.M \cup cur.F))]
    /\ now' = t
    /\ UNCHANGED <<open, made, pend, br, best>>

(* ----------------------------- branching -------------------------------- *)
MandatoryFirst(I) == I.hyb = 0 \/ Pr(I, br) >= HalfProb

\* The parent's decisions with the branching edge decided one way or the other.
Half(I, mandatory) ==
    IF mandatory THEN [cur EXCEPT !.M = @ \cup {br}, !.F = @ \ {br}]
    ELSE [cur EXCEPT !.F = @ \cup {br}, !.M = @ \ {br}]
HalfNo(I, k) == Half(I, MandatoryFirst(I) = (k = 1))

ChildFaults(I, c) ==
    LET k == Len(made) + 1
        h == HalfNo(I, k)
    IN Fault("C08", "C08" \in Props =>
         /\ stage \in {"bounded", "fixed"} /\ k <= 2 /\ pend = {}
         /\ br \in Edges(I)
         /\ c.fa = cur.id /\ c.lvl = cur.lvl + 1 /\ c.id > cnt.maxid
         /\ h.M \subseteq c.M /\ h.F \subseteq c.F
         /\ \A t \in I.T : In(t, h) => In(t, c))

Child(I, c, t) ==
    /\ made' = Append(made, c)
    /\ pend' = {c}
    /\ cnt' = [cnt EXCEPT !.gen = @ + 1, !.lvl = Max({@, cur.lvl + 1}), !.maxid = Max({@, c.id})]
    /\ now' = t
    /\ UNCHANGED <<open, cur, stage, br, best>>

PendNode == IF pend = {} THEN cur ELSE CHOOSE c \in pend : TRUE
Closing == Len(made) >= 2

QueueFaults(I, c) ==
    Fault("C04", "C04" \in Props => \A t \in I.T : t.c < c.val => ~In(t, c))
    \cup Fault("C08", "C08" \in Props =>
            /\ pend # {} /\ c.id = PendNode.id
            /\ \A t \in I.T : In(t, PendNode) => In(t, c))
    \cup Fault("C09", "C09" \in Props => \A t \in Excluded(I, PendNode, c) : t.c >= best.cost)

Forced(a, b) == Cardinality((b.M \cup b.F) \ (a.M \cup a.F))

Queue(I, c, t) ==
    /\ open' = open \cup {c}
    /\ pend' = {}
    /\ cur' = IF Closing THEN Nil ELSE cur
    /\ stage' = IF Closing THEN "idle" ELSE stage
    /\ cnt' = [cnt EXCEPT !.fixed = @ + Forced(PendNode, c)]
    /\ now' = t
    /\ UNCHANGED <<made, br, best>>

\* A child dropped because the degree rules contradict its decisions; c has the decisions forced before that.
DropFaults(I, c) ==
    Fault("C08", pend # {} /\ c.id = PendNode.id)
    \cup Fault("C09", "C09" \in Props => \A t \in I.T : ~In(t, PendNode))

Drop(I, c, t) ==
    /\ pend' = {}
    /\ cur' = IF Closing THEN Nil ELSE cur
    /\ stage' = IF Closing THEN "idle" ELSE stage
    /\ cnt' = [cnt EXCEPT !.fixed = @ + Forced(PendNode, c)]
    /\ now' = t
    /\ UNCHANGED <<open, made, br, best>>

(* ------------------------------ the end --------------------------------- *)
\* r is what the solve reports: cost, tour, kind, id, lvl, time, prob of the best tour, the counters gen, expl, lvls,
\* fixed, intr (interrupted) and the printed walk, a sequence of pairs, with the printed cost.

\* The printed pairs form one closed walk over the tour.
WalkOk(r) ==
    LET w == r.walk
        L == Len(w)
    IN /\ L = Cardinality(r.tour)
       /\ {E(w[k][1], w[k][2]) : k \in 1 .. L} = r.tour
       /\ \A k \in 1 .. L : w[k][2] = w[(k % L) + 1][1]

TourOk(I, r) ==
    \/ /\ r.cost < INF
       /\ r.ncycle = Cardinality(r.tour)
       /\ IsTour(I, r.tour)
       /\ r.cost = Cost(I, r.tour) /\ r.value = r.cost
       /\ r.pcost = r.cost
       /\ WalkOk(r)
    \/ /\ r.cost = INF /\ r.value = INF /\ r.ncycle = 0 /\ r.tour = {} /\ r.walk = <<>> /\ r.pcost = INF

OptimalOk(I, r) == r.intr = 0 => \A t \in I.T : t.c >= r.cost - I.eps

CountersOk(r) ==
    /\ r.gen = cnt.gen /\ r.expl = cnt.expl /\ r.lvls = cnt.lvl /\ r.fixed = cnt.fixed
    /\ r.cost < INF => r.id = best.id /\ r.lvl = best.lvl /\ r.kind = best.kind /\ r.pkind = best.kind
    /\ r.cost < INF => r.time - best.time \in -5 .. 5

\* The mean probability of the tour's edges, in hybrid mode.
ProbOk(I, r) ==
    IF I.hyb = 0 THEN r.prob = 0
    ELSE r.cost < INF => (r.prob * I.n) - ProbSum(I, r.tour) \in (-2 * I.n) .. (2 * I.n)

ReportFaults(I, r) ==
    Fault("C01", "C01" \in Props => OptimalOk(I, r))
    \cup Fault("C02", "C02" \in Props => TourOk(I, r))
    \cup Fault("C05", r.cost = best.cost /\ r.tour = best.tour)
    \cup Fault("C08", stage \in {"idle", "none"})
    \cup Fault("C10", /\ (r.intr = 1) => now > Limit
                      /\ (r.intr = 0) => open = {} /\ stage \in {"idle", "none"}
                      /\ now > Limit => r.intr = 1      \* the time of the last step
                      /\ r.cost = best.cost /\ r.tour = best.tour)
    \cup Fault("C11", CountersOk(r))
    \cup Fault("C20", r.same = 1)
    \cup Fault("C21", "C21" \in Props => ProbOk(I, r))

Report(I, r, t) ==
    /\ stage' = "ended"
    /\ now' = t
    /\ UNCHANGED <<open, cur, made, pend, br, best, cnt>>

(* ------------------------- global properties ---------------------------- *)
Live == open \cup (IF cur.id = -1 THEN {} ELSE {cur}) \cup pend

\* C03: every better tour is still in a live subproblem.
Covered(I) == \A t \in Better(I) : \E nd \in Live : In(t, nd)
=============================================================================
