------------------------------ MODULE DatTrace ------------------------------
(* Data files written by the converter: items [lines, words]; a word as in    *)
(* Dat, except for numbers: <<"num", d, exact>>.                              *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANT Props
Items == TLCEval(JsonDeserialize(IOEnv.TRACE))
VARIABLES i, at, bad, lines, pos, inside, cities, word, row, col, stage
mvars == <<lines, pos, inside, cities, word, row, col, stage>>
D == INSTANCE Dat
Words == Items[i].words

Init == i = 0 /\ at = 0 /\ bad = 0 /\ D!Load(<<>>)
Begin == /\ IF i = 0 THEN TRUE ELSE stage = "next"
         /\ i < Len(Items) /\ i' = i + 1 /\ at' = 1 /\ bad' = bad
         /\ lines' = Items[i + 1].lines /\ pos' = 1 /\ inside' = FALSE /\ cities' = <<>> /\ word' = <<>> /\ row' = 0 /\ col' = 0
         /\ stage' = "read"
Read == i > 0 /\ (D!ReadLine \/ D!ReadAll) /\ UNCHANGED <<i, at, bad>>
\* The next word of the file is the next word of the machine.
Fits(w) == IF w[1] = "num" THEN word'[1] = "num" /\ w[3] = 1 /\ D!DistanceOk(w[2], cities[word'[2]], cities[word'[3]])
           ELSE word' = w
Writing == i > 0 /\ stage \notin {"read", "done", "next"}
Word == Writing /\ at <= Len(Words) /\ D!WriteNext /\ Fits(Words[at]) /\ at' = at + 1 /\ UNCHANGED <<i, bad>>
Fault == Writing /\ ~ENABLED Word /\ stage' = "next" /\ PrintT(<<"FAULT", i, at, Props>>) /\ bad' = bad + 1
         /\ UNCHANGED <<i, at, lines, pos, inside, cities, word, row, col>>
End == i > 0 /\ stage = "done" /\ stage' = "next" /\ UNCHANGED <<i, at, lines, pos, inside, cities, word, row, col>>
       /\ IF at = Len(Words) + 1 THEN bad' = bad ELSE PrintT(<<"FAULT", i, at, Props>>) /\ bad' = bad + 1
Last == (i' = Len(Items) /\ stage' = "next") => PrintT(<<"DONE", i', bad'>>)
Next == Begin \/ Read \/ Word \/ ((Fault \/ End) /\ Last)
TraceSpec == Init /\ [][Next]_<<mvars, i, at, bad>>
=============================================================================
