------------------------------- MODULE Report -------------------------------
(* Result files and their analysis. A solve reports its improvements as they  *)
(* happen and a summary when it ends; the driver completes the file with the  *)
(* time of the whole instance. The analysis reads the files of a folder one   *)
(* by one. Times are pairs <<seconds, microseconds>>; other numbers are only  *)
(* passed on. A report is a record [id, origin, intr, cost, prob, lvl, no,    *)
(* best, elapsed, gen, expl, lvls, imp, taken].                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES stage, cur, folder, todo, stats
rvars == <<stage, cur, folder, todo, stats>>
Origins == {"nn", "pnn", "tree", "ascent", "none"}

Nothing == [resolved |-> 0, closed |-> [o \in Origins |-> 0], per |-> <<>>, partial |-> <<>>, unresolved |-> {}]
Blank == [id |-> 0]
Fresh == /\ stage = "idle" /\ cur = Blank /\ folder = <<>> /\ todo = {} /\ stats = Nothing

Add(s, t) == LET us == s[2] + t[2] IN <<s[1] + t[1] + us \div 1000000, us % 1000000>>
Sub(s, t) == LET us == s[2] - t[2] IN <<s[1] - t[1] + us \div 1000000, us % 1000000>>

(* ------------------------------------------------------------- the solver *)
Start(id) == /\ stage = "idle" /\ todo = {} /\ id \notin DOMAIN folder
             /\ stage' = "solving" /\ cur' = [id |-> id, imp |-> <<>>]
             /\ UNCHANGED <<folder, todo, stats>>
Improve(v, t) == /\ stage = "solving" /\ cur' = [cur EXCEPT !.imp = Append(@, <<v, t>>)]
                 /\ UNCHANGED <<stage, folder, todo, stats>>
\* s: the fields of the summary; a tour of the search was an improvement, one of the start was not
Finish(s) == /\ stage = "solving"
             /\ (s.origin \in {"tree", "ascent"}) <=> (cur.imp # <<>>)
             /\ stage' = "finished" /\ cur' = s @@ cur
             /\ UNCHANGED <<folder, todo, stats>>
Complete(t) == /\ stage = "finished" /\ stage' = "idle" /\ cur' = Blank
               /\ folder' = (cur.id :> ([taken |-> t] @@ cur)) @@ folder
               /\ UNCHANGED <<todo, stats>>

(* ----------------------------------------------------------- the analysis *)
Open == /\ stage = "idle" /\ stage' = "reading" /\ todo' = DOMAIN folder /\ stats' = Nothing
        /\ UNCHANGED <<cur, folder>>
Row(r) == [total_time |-> r.taken, time_bb |-> r.elapsed, time_to_best |-> r.best, generate_bbnodes |-> r.gen,
           explored_bbnodes |-> r.expl, bbnodes_before_best |-> r.no, total_tree_level |-> r.lvls, best_level |-> r.lvl,
           prob_best |-> r.prob, best_value |-> r.cost]
Overhead(r) == Sub(r.taken, r.elapsed)
Shift(r) == IF r.imp = <<>> THEN << <<r.cost, Add(Overhead(r), r.best)>> >>
            ELSE [k \in 1 .. Len(r.imp) |-> <<r.imp[k][1], Add(Overhead(r), r.imp[k][2])>>]
Read(id) ==
    /\ stage = "reading" /\ id \in todo /\ todo' = todo \ {id} /\ UNCHANGED <<stage, cur, folder>>
    /\ LET r == folder[id] f == 1 - r.intr
       IN stats' = [resolved |-> stats.resolved + f,
                    closed |-> [stats.closed EXCEPT ![r.origin] = @ + f],
                    per |-> IF f = 1 THEN (id :> Row(r)) @@ stats.per ELSE stats.per,
                    partial |-> (id :> [resolved |-> f, imp |-> Shift(r)]) @@ stats.partial,
                    unresolved |-> IF f = 1 THEN stats.unresolved ELSE stats.unresolved \cup {id}]

\* What the analysis has to know, without the steps.
Done == {id \in DOMAIN folder : folder[id].intr = 0}
NothingLost ==
    (stage = "reading" /\ todo = {}) =>
        /\ stats.resolved = Cardinality(Done) /\ stats.unresolved = DOMAIN folder \ Done
        /\ DOMAIN stats.per = Done /\ DOMAIN stats.partial = DOMAIN folder
        /\ \A o \in Origins : stats.closed[o] = Cardinality({id \in Done : folder[id].origin = o})
        /\ \A id \in Done : stats.per[id] = Row(folder[id])
        /\ \A id \in DOMAIN folder :
               LET r == folder[id] q == stats.partial[id].imp
               IN /\ Len(q) = (IF r.imp = <<>> THEN 1 ELSE Len(r.imp))
                  /\ \A k \in 1 .. Len(r.imp) : q[k][1] = r.imp[k][1] /\ Add(q[k][2], r.elapsed) = Add(r.imp[k][2], r.taken)
                  /\ \A k \in 1 .. Len(r.imp) - 1 : q[k + 1][2] = Add(q[k][2], Sub(r.imp[k + 1][2], r.imp[k][2]))
=============================================================================
