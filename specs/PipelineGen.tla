---------------------------- MODULE PipelineGen -----------------------------
(* All runs of the driver up to Count instances, with every failure; prints   *)
(* the range and the outcome of each step.                                    *)
EXTENDS Pipeline, TLC, Json

CONSTANTS Sizes, Count, Hyb
VARIABLES steps, printed
avars == <<pvars, steps, printed>>

Init == /\ \E n \in Sizes, a \in 1 .. Count, b \in 0 .. Count + 1, s \in {0, 1} :
              (a = 1 \/ b >= a) /\ Run([n |-> n, hyb |-> Hyb, first |-> a, last |-> b, count |-> Count, stale |-> s])
        /\ steps = <<>> /\ printed = FALSE

With(w) == steps' = Append(steps, w) /\ UNCHANGED printed
Quiet == UNCHANGED <<steps, printed>>
\* One failure, or two of the solver, is enough.
Fine == \A k \in 1 .. Len(steps) : steps[k] \in {"cmake", "make", "nn", "solve"}
Next ==
    \/ \E ok \in BOOLEAN : Configure(ok, conf.n, conf.hyb) /\ With(IF ok THEN "cmake" ELSE "cmake fails")
    \/ \E ok \in BOOLEAN : Make(ok) /\ With(IF ok THEN "make" ELSE "make fails")
    \/ Take /\ Quiet
    \/ \E how \in {"ok", "early", "late"} : Network(how) /\ (how = "ok" \/ Fine) /\ With(IF how = "ok" THEN "nn" ELSE "nn " \o how)
    \/ \E how \in {"ok", "fails", "killed"} : Solve(how = "ok") /\ (how = "ok" \/ Fine) /\ With(IF how = "ok" THEN "solve" ELSE "solve " \o how)
    \/ Report /\ Quiet
    \/ Finish /\ Quiet
    \/ ph \in Ends /\ ~printed /\ printed' = TRUE /\ UNCHANGED <<pvars, steps>>
       /\ PrintT("SEQ " \o ToJson(<<conf, steps, ph>>))
Spec == Init /\ [][Next]_avars
=============================================================================
