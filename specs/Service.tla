------------------------------ MODULE Service -------------------------------
(* The solver as a service: a history of requests, each an instance, a mode   *)
(* and what the memory happens to contain, and their answers. There is one    *)
(* answer per instance; what came before does not matter. In classic mode     *)
(* there is one answer per matrix of weights, whatever the probabilities; in  *)
(* hybrid mode they may lead to another tour, not to a worse one.             *)
(*                                                                            *)
(* An answer a: cost, prob, time, intr, st (the other statistics), tour, same *)
(* (the graph was left as it was).                                            *)
EXTENDS Tsp

CONSTANT Props
VARIABLES known,    \* what was answered: from <<mode, instance>> to the answer
          classic   \* what was answered in classic mode: from the weights to the answer
svars == <<known, classic>>

Outcome(a) == [cost |-> a.cost, prob |-> a.prob, time |-> a.time, intr |-> a.intr, st |-> a.st, tour |-> a.tour]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
InitService == known = <<>> /\ classic = <<>>

\* r: [hyb, inst (its number), wt (number of its weights), eps, n, p (probabilities)]
AnswerFaults(r, a) ==
    LET k == <<r.hyb, r.inst>>
        tour == {a.tour[j] : j \in 1 .. Len(a.tour)}
    IN (IF "C20" \in Props /\ (a.same = 0 \/ (k \in DOMAIN known /\ known[k] # Outcome(a))) THEN {"C20"} ELSE {})
       \cup
       (IF "C21" \in Props /\
           \/ r.hyb = 0 /\ a.prob # 0
           \/ r.hyb = 0 /\ r.wt \in DOMAIN classic /\ classic[r.wt] # Outcome(a)
           \/ r.hyb = 1 /\ a.cost < INF /\ ~(LET d == a.prob * r.n - ProbSum(r, tour) IN d <= ProbSlack * r.n /\ d >= -ProbSlack * r.n)
           \/ /\ r.hyb = 1 /\ a.intr = 0 /\ r.wt \in DOMAIN classic /\ classic[r.wt].intr = 0
              /\ \/ (a.cost = INF) # (classic[r.wt].cost = INF)
                 \/ a.cost < INF /\ a.cost - classic[r.wt].cost > r.eps
                 \/ a.cost < INF /\ classic[r.wt].cost - a.cost > r.eps
        THEN {"C21"} ELSE {})

Answer(r, a) ==
    /\ known' = IF <<r.hyb, r.inst>> \in DOMAIN known THEN known ELSE Put(known, <<r.hyb, r.inst>>, Outcome(a))
    /\ classic' = IF r.hyb = 1 \/ r.wt \in DOMAIN classic THEN classic ELSE Put(classic, r.wt, Outcome(a))
=============================================================================
