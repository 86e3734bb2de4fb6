-------------------------------- MODULE Dat ---------------------------------
(* From a coordinate file to the data file of the reference solver. The input *)
(* is a sequence of lines: <<"row", x, y>> (an index and two coordinates),    *)
(* <<"section">>, or <<"other">>, which has to be passed over, as rows before *)
(* the section have. The output is written word by word:                      *)
(* <<"n", count>>, <<"cost">>, and per row <<"open">>, numbers with <<"sep">> *)
(* between them, <<"close">>; at last <<"end">>. A number is <<"num", i, j>>: *)
(* the distance of the cities i and j.                                        *)
EXTENDS Integers, Sequences

VARIABLES lines, pos, inside, cities, word, row, col, stage
dvars == <<lines, pos, inside, cities, word, row, col, stage>>

Load(f) == lines = f /\ pos = 1 /\ inside = FALSE /\ cities = <<>> /\ word = <<>> /\ row = 0 /\ col = 0 /\ stage = "read"

ReadLine ==
    /\ stage = "read" /\ pos <= Len(lines) /\ pos' = pos + 1
    /\ inside' = (inside \/ lines[pos][1] = "section")
    /\ cities' = IF inside /\ lines[pos][1] = "row" THEN Append(cities, <<lines[pos][2], lines[pos][3]>>) ELSE cities
    /\ UNCHANGED <<lines, word, row, col, stage>>
ReadAll == /\ stage = "read" /\ pos > Len(lines) /\ stage' = "n" /\ UNCHANGED <<lines, pos, inside, cities, word, row, col>>

N == Len(cities)
Put(w, s) == word' = w /\ stage' = s /\ UNCHANGED <<lines, pos, inside, cities>>
WriteN == stage = "n" /\ Put(<<"n", N>>, "cost") /\ UNCHANGED <<row, col>>
WriteCost == stage = "cost" /\ Put(<<"cost">>, "row") /\ UNCHANGED <<row, col>>
WriteOpen == stage = "row" /\ row < N /\ Put(<<"open">>, "number") /\ row' = row + 1 /\ col' = 0
WriteNumber == stage = "number" /\ Put(<<"num", row, col + 1>>, "after") /\ col' = col + 1 /\ UNCHANGED row
WriteSep == stage = "after" /\ col < N /\ Put(<<"sep">>, "number") /\ UNCHANGED <<row, col>>
WriteClose == stage = "after" /\ col = N /\ Put(<<"close">>, "row") /\ UNCHANGED <<row, col>>
WriteEnd == stage = "row" /\ row = N /\ Put(<<"end">>, "done") /\ UNCHANGED <<row, col>>
WriteNext == WriteN \/ WriteCost \/ WriteOpen \/ WriteNumber \/ WriteSep \/ WriteClose \/ WriteEnd

Sq(x) == x * x
\* d in hundredths; coordinates are whole numbers.
DistanceOk(d, u, v) == LET s == (Sq(u[1] - v[1]) + Sq(u[2] - v[2])) * 10000
                       IN d >= 0 /\ (d = 0 \/ Sq(d - 1) <= s) /\ s <= Sq(d + 1)
=============================================================================
