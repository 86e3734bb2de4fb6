------------------------------- MODULE DatGen -------------------------------
(* All input files of up to Length lines over a few rows; the words that are  *)
(* written form a whole data file.                                            *)
EXTENDS Dat, FiniteSets, TLC, Json

CONSTANTS Length, Grid
VARIABLES written
avars == <<dvars, written>>

Kinds == {<<"section">>, <<"other">>} \cup {<<"row", x, y>> : x, y \in Grid}
Files == UNION {[1 .. k -> Kinds] : k \in 0 .. Length}
Sections(f) == Cardinality({k \in DOMAIN f : f[k][1] = "section"})
HasRow(f) == \E k, l \in DOMAIN f : k < l /\ f[k][1] = "section" /\ f[l][1] = "row"
Init == (\E f \in {g \in Files : Sections(g) = 1 /\ HasRow(g)} : Load(f)) /\ written = <<>>
Next == \/ (ReadLine \/ ReadAll) /\ UNCHANGED written
        \/ WriteNext /\ written' = Append(written, word')
        \/ stage = "done" /\ stage' = "printed" /\ PrintT("SEQ " \o ToJson(lines)) /\ UNCHANGED <<lines, pos, inside, cities, word, row, col, written>>
Spec == Init /\ [][Next]_avars

Count(w) == Cardinality({k \in DOMAIN written : written[k][1] = w})
Whole == stage = "done" =>
    /\ written[1] = <<"n", N>> /\ written[Len(written)] = <<"end">>
    /\ Count("open") = N /\ Count("close") = N /\ Count("num") = N * N /\ Count("sep") = N * (N - 1)
    /\ {written[k] : k \in {l \in DOMAIN written : written[l][1] = "num"}} = {<<"num", i, j>> : i, j \in 1 .. N}
    /\ \A k \in 1 .. Len(written) - 1 : written[k][1] = "num" => written[k + 1][1] \in {"sep", "close"}
=============================================================================
