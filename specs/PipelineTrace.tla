--------------------------- MODULE PipelineTrace ----------------------------
(* Runs of the real driver with stand-ins for the build, the network and the  *)
(* solver: items [conf, ev]. Events (b, e: when it began and ended, in        *)
(* microseconds): cmake [n, hyb, ok], make [ok], nn [temp, n, model, path,    *)
(* how], solve [exe, path, of, kind, out, ok], end [ok, temp, results], with  *)
(* results [call, cities, order, t]: the number of the call of the solver     *)
(* that wrote the file (0: older, -1: no file), the instance whose cities     *)
(* are listed, whether they are in the order of the matrix, and the time.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Props
Items == TLCEval(JsonDeserialize(IOEnv.TRACE))
VARIABLES it, at, bad, conf, ph, exe, cur, temp, matrix, result, seen,
          since, ended, from,     \* end of the previous instance, end of the last step, beginning of the network
          times                   \* instance -> <<least, most>> time
tvars == <<since, ended, from, times>>
mvars == <<conf, ph, exe, cur, temp, matrix, result, seen>>
M == INSTANCE Pipeline
Ev == Items[it].ev
E == Ev[at]

Start(c) == /\ conf' = c /\ ph' = "start" /\ exe' = <<0, 0>> /\ cur' = c.first - 1 /\ temp' = 0 /\ seen' = <<>>
            /\ matrix' = [i \in 1 .. c.count |-> IF c.stale = 1 THEN M!Old(c.hyb) ELSE M!None]
            /\ result' = [i \in 1 .. c.count |-> IF c.stale = 1 THEN M!OldResult ELSE M!NoResult]
            /\ since' = 0 /\ ended' = 0 /\ from' = 0 /\ times' = [i \in 1 .. c.count |-> <<0, 0>>]

Nothing == [n |-> 0, hyb |-> 0, first |-> 1, last |-> 0, count |-> 0, stale |-> 0]
Init == /\ it = 0 /\ at = 1 /\ bad = 0 /\ M!Run(Nothing) /\ since = 0 /\ ended = 0 /\ from = 0 /\ times = <<>>

Begin == /\ IF it = 0 THEN TRUE ELSE at > Len(Ev)
         /\ it < Len(Items) /\ it' = it + 1 /\ at' = 1 /\ bad' = bad
         /\ Start(Items[it + 1].conf)

\* Steps without an event of their own, when the next event asks for them.
Pending == it > 0 /\ at <= Len(Ev)
More == E.k \in {"nn", "solve"} \/ (E.k = "end" /\ ~E.ok /\ cur >= conf.count)
TakeStep == Pending /\ ph = "idle" /\ More /\ M!Take /\ UNCHANGED <<it, at, bad, tvars>>
\* After a failed solve the driver may stop.
ReportStep == /\ Pending /\ ph \in {"solved", "unsolved"}
              /\ IF ph = "unsolved" /\ E.k = "end" /\ ~E.ok THEN M!GiveUp /\ UNCHANGED tvars
                 ELSE /\ M!Report /\ times' = [times EXCEPT ![cur] = <<@[1], E.b - since>>]
                      /\ since' = ended /\ UNCHANGED <<ended, from>>
              /\ UNCHANGED <<it, at, bad>>
FinishStep == Pending /\ E.k = "end" /\ E.ok /\ M!Finish /\ UNCHANGED <<it, at, bad, tvars>>
Silent == TakeStep \/ ReportStep \/ FinishStep

Slack == 3000
TimeOk(i, r) == r.t + Slack >= times[i][1] /\ r.t <= times[i][2] + Slack
\* The result file of instance i as the machine says it must be.
FileOk(i) ==
    LET r == E.results[i] m == result[i]
    IN CASE m = M!NoResult -> r.call = -1
         [] m.of = 0 -> (m.cities = 0 /\ r.call = 0) \/ (\E k \in 1 .. Len(seen) : seen[k] = i)   \* the solver failed: not said
         [] OTHER -> r.call \in 1 .. Len(seen) /\ seen[r.call] = i /\ r.cities = i /\ r.order = 1 /\ TimeOk(i, r)

Right ==
    CASE E.k = "cmake" -> ph = "start" /\ E.n = conf.n /\ E.hyb = conf.hyb
      [] E.k = "make" -> ph = "configured"
      [] E.k = "nn" -> ph = "wanted" /\ E.temp = cur /\ E.n = conf.n /\ E.model = M!Model(conf.n) /\ E.path = cur
      [] E.k = "solve" -> /\ ph = "prepared" /\ E.exe = exe /\ E.path = cur /\ E.out = cur
                          /\ E.of = matrix[cur].of /\ E.kind = matrix[cur].kind
      [] E.k = "end" -> /\ ph \in M!Ends /\ (E.ok <=> ph = "done")
                        /\ (E.ok /\ (conf.first <= conf.last \/ conf.stale = 0) => E.temp = 0)
                        /\ \A i \in DOMAIN result : FileOk(i)
      [] OTHER -> FALSE

Follow ==
    CASE E.k = "cmake" -> M!Configure(E.ok, E.n, E.hyb) /\ UNCHANGED tvars
      [] E.k = "make" -> M!Make(E.ok) /\ since' = E.e /\ UNCHANGED <<ended, from, times>>
      [] E.k = "nn" -> M!Network(E.how) /\ from' = E.b /\ UNCHANGED <<since, ended, times>>
      [] E.k = "solve" -> /\ M!Solve(E.ok) /\ from' = 0 /\ ended' = E.e /\ UNCHANGED since
                          /\ times' = [times EXCEPT ![cur] = <<E.e - (IF from = 0 THEN E.b ELSE from), 0>>]
      [] OTHER -> UNCHANGED <<mvars, tvars>>

Step ==
    /\ Pending /\ ~ENABLED Silent
    /\ it' = it
    /\ IF TLCEval(Right) THEN Follow /\ at' = at + 1 /\ bad' = bad
       ELSE /\ PrintT(<<"FAULT", it, at, Props>>) /\ bad' = bad + 1
            /\ at' = Len(Ev) + 1 /\ UNCHANGED <<mvars, tvars>>
    /\ (it = Len(Items) /\ at' > Len(Ev)) => PrintT(<<"DONE", it, bad'>>)

Next == Begin \/ Silent \/ Step
TraceSpec == Init /\ [][Next]_<<mvars, tvars, it, at, bad>>
=============================================================================
