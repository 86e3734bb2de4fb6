----------------------------- MODULE ReportGen ------------------------------
(* All folders of at most Size results by origin, interruption and number of  *)
(* improvements (0, 1, many), read in any order.                              *)
EXTENDS Report, Json

CONSTANT Size, Long                  \* Long: at most this many improvements

VARIABLE kinds                       \* the kinds of the results so far, as numbers, in increasing order
gvars == <<stage, cur, folder, todo, stats, kinds>>
Kinds == [o : {"nn", "pnn", "tree", "ascent", "none"}, i : {0, 1}, k : 0 .. Long]
Sense == {x \in Kinds : (x.o \in {"tree", "ascent"}) <=> x.k > 0}
Rank(x) == (CASE x.o = "nn" -> 0 [] x.o = "pnn" -> 1 [] x.o = "none" -> 2 [] x.o = "tree" -> 3 [] OTHER -> 4) * 100 + x.i * 50 + x.k
Last == IF kinds = <<>> THEN 0 ELSE Rank(kinds[Len(kinds)])

Init == Fresh /\ kinds = <<>>
Choose == /\ stage = "idle" /\ cur = Blank /\ todo = {} /\ Len(kinds) < Size
          /\ \E x \in Sense : Rank(x) >= Last /\ kinds' = Append(kinds, x)
          /\ Start(Len(kinds) + 1)
Kind == kinds[Len(kinds)]
Value(q) == <<Len(kinds), q>>        \* any numbers, different ones
Work == /\ UNCHANGED kinds
        /\ \/ stage = "solving" /\ Len(cur.imp) < Kind.k /\ Improve(Value(Len(cur.imp)), <<Len(cur.imp), 700000>>)
           \/ stage = "solving" /\ Len(cur.imp) = Kind.k
              /\ Finish([origin |-> Kind.o, intr |-> Kind.i, cost |-> Value(10), prob |-> Value(11), lvl |-> Value(12), no |-> Value(13),
                         best |-> <<1, 0>>, elapsed |-> <<Len(kinds) + 2, 900000>>, gen |-> Value(14), expl |-> Value(15), lvls |-> Value(16)])
           \/ Complete(<<Len(kinds) + 5, 100000>>)
           \/ Open
           \/ \E id \in todo : Read(id)
Show == /\ stage = "reading" /\ todo = {}
        /\ PrintT("SEQ " \o ToJson([k \in 1 .. Len(kinds) |-> <<kinds[k].o, kinds[k].i, kinds[k].k>>]))
        /\ stage' = "printed" /\ UNCHANGED <<cur, folder, todo, stats, kinds>>
Spec == Init /\ [][Choose \/ Work \/ Show]_gvars
=============================================================================
