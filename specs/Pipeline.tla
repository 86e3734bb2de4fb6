------------------------------ MODULE Pipeline ------------------------------
(* The driver: builds the solver for a size and a mode, and takes a range of  *)
(* instances through the network (hybrid mode) and the solver, leaving a      *)
(* result file per instance. Files hold what they were made from: matrices    *)
(* [of, kind], kind "net" or "plain" (distances only), results [of, kind,     *)
(* cities], where of and cities are instances and 0 is something older.       *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
    conf,        \* [n, hyb, first, last, count, stale]: count instances exist; stale: files of earlier runs are there
    ph,          \* "start", "configured", "idle", "wanted", "asked", "prepared", "solved", "done", "failed"
    exe,         \* what the solver was built for: <<size, mode>>
    cur,         \* the instance at work
    temp,        \* the instance in the file for the network, 0: there is none
    matrix,      \* instance -> its matrix file
    result,      \* instance -> its result file
    seen         \* the instances that were solved, in order
pvars == <<conf, ph, exe, cur, temp, matrix, result, seen>>

None == [of |-> -1, kind |-> "none"]
Old(h) == [of |-> 0, kind |-> IF h = 1 THEN "net" ELSE "plain"]
NoResult == [of |-> -1, kind |-> "none", cities |-> -1]
OldResult == [of |-> 0, kind |-> "old", cities |-> 0]
Model(n) == IF n <= 20 THEN 20 ELSE IF n <= 50 THEN 50 ELSE 100

Run(c) ==
    /\ conf = c /\ ph = "start" /\ exe = <<0, 0>> /\ cur = c.first - 1 /\ temp = 0 /\ seen = <<>>
    /\ matrix = [i \in 1 .. c.count |-> IF c.stale = 1 THEN Old(c.hyb) ELSE None]
    /\ result = [i \in 1 .. c.count |-> IF c.stale = 1 THEN OldResult ELSE NoResult]

Stop == ph' = "failed"
Configure(ok, n, h) ==
    /\ ph = "start" /\ n = conf.n /\ h = conf.hyb
    /\ IF ok THEN ph' = "configured" /\ exe' = <<n, h>> ELSE Stop /\ UNCHANGED exe
    /\ UNCHANGED <<conf, cur, temp, matrix, result, seen>>
Make(ok) ==
    /\ ph = "configured"
    /\ IF ok THEN ph' = "idle" ELSE Stop
    /\ UNCHANGED <<conf, exe, cur, temp, matrix, result, seen>>
\* The next instance is read; in classic mode its matrix is written, in hybrid mode the file for the network.
Take ==
    /\ ph = "idle" /\ cur < conf.last
    /\ cur' = cur + 1
    /\ IF cur' > conf.count THEN Stop /\ UNCHANGED <<temp, matrix>>
       ELSE IF conf.hyb = 1 THEN ph' = "wanted" /\ temp' = cur' /\ UNCHANGED matrix
       ELSE ph' = "prepared" /\ matrix' = [matrix EXCEPT ![cur'] = [of |-> cur', kind |-> "plain"]] /\ UNCHANGED temp
    /\ UNCHANGED <<conf, exe, result, seen>>
\* The network reads its file; when it fails it may or may not have written the matrix.
Network(how) ==
    /\ ph = "wanted"
    /\ IF how = "ok" THEN ph' = "prepared" ELSE Stop
    /\ matrix' = IF how = "early" THEN matrix ELSE [matrix EXCEPT ![cur] = [of |-> temp, kind |-> "net"]]
    /\ UNCHANGED <<conf, exe, cur, temp, result, seen>>
Solve(ok) ==
    /\ ph = "prepared"
    /\ seen' = Append(seen, cur)
    /\ ph' = IF ok THEN "solved" ELSE "unsolved"
    /\ result' = [result EXCEPT ![cur] = IF ok THEN [of |-> matrix[cur].of, kind |-> matrix[cur].kind, cities |-> 0] ELSE OldResult]
    /\ UNCHANGED <<conf, exe, cur, temp, matrix>>
\* The cities and the time are appended. After a failure of the solver the run may go on or stop.
Report ==
    /\ ph \in {"solved", "unsolved"} /\ ph' = "idle" /\ temp' = 0
    /\ result' = [result EXCEPT ![cur].cities = cur]
    /\ UNCHANGED <<conf, exe, cur, matrix, seen>>
GiveUp == ph = "unsolved" /\ Stop /\ UNCHANGED <<conf, exe, cur, temp, matrix, result, seen>>
Finish == ph = "idle" /\ cur >= conf.last /\ ph' = "done" /\ UNCHANGED <<conf, exe, cur, temp, matrix, result, seen>>

\* What a run should come to.
Ends == {"done", "failed"}
InOrder == \A k \in 1 .. Len(seen) : seen[k] = conf.first + k - 1
Complete == ph = "done" => seen = [k \in 1 .. (IF conf.last < conf.first THEN 0 ELSE conf.last - conf.first + 1) |-> conf.first + k - 1]
Clean == ph = "done" => temp = 0
OwnMatrix == \A i \in DOMAIN result : result[i].of > 0 => /\ result[i].of = i
                                                          /\ result[i].kind = IF conf.hyb = 1 THEN "net" ELSE "plain"
OwnCities == ph \in Ends => \A i \in DOMAIN result : result[i].of > 0 => result[i].cities = i
Untouched == \A i \in DOMAIN result : (i \notin conf.first .. conf.last \/ i > cur) => result[i] \in {NoResult, OldResult}
NothingStale == (ph = "failed" /\ cur \in DOMAIN result /\ ~(\E k \in 1 .. Len(seen) : seen[k] = cur)) => result[cur] \in {NoResult, OldResult}
BuiltRight == ph \notin {"start", "failed"} => exe = <<conf.n, conf.hyb>>
Coherent == InOrder /\ Complete /\ Clean /\ OwnMatrix /\ OwnCities /\ Untouched /\ NothingStale /\ BuiltRight
=============================================================================
