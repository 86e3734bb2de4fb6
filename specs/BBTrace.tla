------------------------------ MODULE BBTrace ------------------------------
(* Follows recorded solves of the C solver through the state machine of       *)
(* BranchBound. The file named by the environment variable TRACE holds a      *)
(* sequence of solves, each an instance and the events of the search. A step  *)
(* that breaks a property of Props ends its solve and is printed as           *)
(*   <<"FAULT", solve, event, properties>>                                    *)
(* and the invariant NoFault is violated at the end.                          *)
EXTENDS BranchBound, Json, IOUtils

Solves == TLCEval(JsonDeserialize(IOEnv.TRACE))

FullMax == 7                    \* up to this size all tours are enumerated here
Complete == TLCEval([n \in 3 .. FullMax |-> CompleteTours(n)])

ToEdges(seq) == {seq[k] : k \in 1 .. Len(seq)}

InstOf(s) ==
    LET I == [n |-> s.n, w |-> s.w, p |-> s.p, eps |-> s.eps, hyb |-> s.hyb, cand |-> s.cand]
        given == {ToEdges(s.tours[k]) : k \in 1 .. Len(s.tours)}
        all == IF s.n <= FullMax
               THEN {S \in Complete[s.n] : \A e \in S : W(I, e) > 0}
               ELSE {S \in given : IsTour(I, S)}
    IN [n |-> I.n, w |-> I.w, p |-> I.p, eps |-> I.eps, hyb |-> I.hyb, cand |-> I.cand,
        T |-> {[c |-> Cost(I, S), s |-> S] : S \in all}]

Inst == TLCEval([k \in 1 .. Len(Solves) |-> InstOf(Solves[k])])

VARIABLES i, l, bad
tvars == <<vars, i, l, bad>>

NodeOf(e) == [id |-> e.id, fa |-> e.fa, lvl |-> e.lvl, val |-> e.val, prob |-> e.prob,
              M |-> ToEdges(e.M), F |-> ToEdges(e.F)]

BestOf(e) == [cost |-> e.bc, tour |-> ToEdges(e.bt), kind |-> e.bk, id |-> e.bi, lvl |-> e.bl, time |-> e.bs]

OutcomeOf(e) ==
    [type |-> e.type, val |-> e.val, prob |-> e.prob, br |-> e.br, time |-> e.time, nrel |-> e.nrel, at |-> e.at,
     best |-> IF e.at < 0 THEN best ELSE BestOf(e),
     R |-> [k \in 1 .. Len(e.R) |-> [ok |-> e.R[k].ok = 1, T |-> ToEdges(e.R[k].T), w |-> e.R[k].w]]]

ReportOf(e) ==
    [cost |-> e.cost, value |-> e.value, ncycle |-> e.ncycle, tour |-> ToEdges(e.tour), kind |-> e.kind, id |-> e.id,
     lvl |-> e.lvl, time |-> e.time, prob |-> e.prob, gen |-> e.gen, expl |-> e.expl, lvls |-> e.lvls,
     fixed |-> e.fixed, intr |-> e.intr, walk |-> e.walk, pcost |-> e.pcost, pkind |-> e.pkind, same |-> e.same]

\* The faults of the step and its effect.
StepFaults(I0, e) ==
    CASE e.k = "start"  -> StartFaults(I0, NodeOf(e), BestOf(e), I0.cand, e.t)
      [] e.k = "pop"    -> PopFaults(I0, NodeOf(e), e.t)
      [] e.k = "bound"  -> BoundFaults(I0, I0.cand, OutcomeOf(e))
      [] e.k = "fix"    -> FixFaults(I0, ToEdges(e.M), ToEdges(e.F))
      [] e.k = "child"  -> ChildFaults(I0, NodeOf(e))
      [] e.k = "queue"  -> QueueFaults(I0, NodeOf(e))
      [] e.k = "drop"   -> DropFaults(I0, NodeOf(e))
      [] e.k = "report" -> ReportFaults(I0, ReportOf(e))
      [] OTHER          -> Props            \* crash, hang: the solve did not do its work

StepEffect(I0, e) ==
    CASE e.k = "start"  -> Start(I0, NodeOf(e), BestOf(e), e.t)
      [] e.k = "pop"    -> Pop(I0, NodeOf(e), e.t)
      [] e.k = "bound"  -> Bound(I0, OutcomeOf(e), e.t)
      [] e.k = "fix"    -> Fix(I0, ToEdges(e.M), ToEdges(e.F), e.t)
      [] e.k = "child"  -> Child(I0, NodeOf(e), e.t)
      [] e.k = "queue"  -> Queue(I0, NodeOf(e), e.t)
      [] e.k = "drop"   -> Drop(I0, NodeOf(e), e.t)
      [] e.k = "report" -> Report(I0, ReportOf(e), e.t)
      [] OTHER          -> UNCHANGED vars

CoverFault(I0) == IF "C03" \in Props /\ stage' # "none" /\ ~Covered(I0)' THEN {"C03"} ELSE {}

\* The state of the next solve.
Fresh ==
    /\ open' = {} /\ cur' = Nil /\ stage' = "none" /\ made' = <<>> /\ pend' = {} /\ br' = -1
    /\ best' = NoTour /\ cnt' = ZeroCnt /\ now' = 0

TraceInit == InitBB /\ i = 1 /\ l = 1 /\ bad = 0

\* The quantifiers only evaluate the instance and the event once.
Consume ==
    /\ i <= Len(Solves) /\ l <= Len(Solves[i].ev)
    /\ i' = i
    /\ \E I0 \in {Inst[i]} : \E e \in {Solves[i].ev[l]} :
        /\ StepEffect(I0, e)
        /\ LET f == TLCEval(StepFaults(I0, e) \cup CoverFault(I0))
           IN IF f = {} THEN l' = l + 1 /\ bad' = bad
              ELSE /\ PrintT(<<"FAULT", i, l, f>>)
                   /\ l' = Len(Solves[i].ev) + 1 /\ bad' = bad + 1

NextSolve ==
    /\ i <= Len(Solves) /\ l > Len(Solves[i].ev)
    /\ Fresh
    /\ i' = i + 1 /\ l' = 1 /\ bad' = bad
    /\ (i = Len(Solves)) => PrintT(<<"DONE", i, bad>>)

TraceNext == Consume \/ NextSolve
TraceSpec == TraceInit /\ [][TraceNext]_tvars

NoFault == (i > Len(Solves)) => bad = 0
=============================================================================
