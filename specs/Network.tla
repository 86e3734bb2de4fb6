------------------------------ MODULE Network -------------------------------
(* From the answer of the network to the matrix file. A model for m cities    *)
(* gives p[k][l] for the cities k and l of its input; input[k] is the city    *)
(* of the instance at position k. With less than m cities the rest of the     *)
(* input are copies, taken in one by one; with more, the cities that are not  *)
(* in the input are added one by one, with probability 0. Cities are 0 ..     *)
(* n - 1, and list is their order in the matrix file.                         *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

VARIABLES n, m, p, input, list, prob, at, stage
nvars == <<n, m, p, input, list, prob, at, stage>>

Load(n0, m0, p0, input0) ==
    /\ n = n0 /\ m = m0 /\ p = p0 /\ input = input0
    /\ list = SubSeq(input0, 1, IF n0 < m0 THEN n0 ELSE m0)
    /\ prob = [a \in 1 .. Len(list) |-> [b \in 1 .. Len(list) |-> p0[a][b]]]
    /\ at = Len(list) + 1 /\ stage = "work"

Same == UNCHANGED <<n, m, p, input>>
Where(c) == CHOOSE a \in 1 .. Len(list) : list[a] = c
Larger(x, y) == IF x > y THEN x ELSE y

\* The copy at position at of the input counts for its city.
Fold == /\ stage = "work" /\ n < m /\ at <= m
        /\ at' = at + 1 /\ Same /\ UNCHANGED <<list, stage>>
        /\ LET b == Where(input[at])
           IN prob' = [a \in 1 .. n |-> IF a = b THEN prob[a] ELSE [prob[a] EXCEPT ![b] = Larger(@, p[a][at])]]
\* A city outside the input of the model.
Extend == /\ stage = "work" /\ n > m /\ Len(list) < n
          /\ \E c \in (0 .. n - 1) \ {list[a] : a \in 1 .. Len(list)} :
                /\ list' = Append(list, c)
                /\ prob' = Append([a \in 1 .. Len(list) |-> Append(prob[a], 0)], [b \in 1 .. Len(list) + 1 |-> 0])
          /\ Same /\ UNCHANGED <<at, stage>>
Write == /\ stage = "work" /\ IF n < m THEN at > m ELSE Len(list) = n
         /\ stage' = "written" /\ UNCHANGED <<n, m, p, input, list, prob, at>>
NetNext == Fold \/ Extend \/ Write

\* The file as a whole, without the steps: the entry of a pair is the largest of those that stand for it.
Stands(a, b) == {p[a][k] : k \in {k \in 1 .. m : k = b \/ (k > n /\ input[k] = list[b])}}
Entry(a, b) == IF a > m \/ b > m THEN 0 ELSE Max(Stands(a, b))
FileRight ==
    stage = "written" =>
        /\ Len(list) = n /\ {list[a] : a \in 1 .. n} = 0 .. n - 1
        /\ \A a, b \in 1 .. n : a # b => prob[a][b] = Entry(a, b)

(* The file the code wrote: cities, rows of [d, p], d in ten thousandths;     *)
(* xy: coordinates of the cities in thousandths.                              *)
Sq(x) == x * x
DistanceOk(d, u, v) == LET s == (Sq(u[1] - v[1]) + Sq(u[2] - v[2])) * 100
                       IN d >= 0 /\ (d = 0 \/ Sq(d - 1) <= s) /\ s <= Sq(d + 1)
FileOk(cities, rows, xy) ==
    /\ Len(cities) = n /\ {cities[a] : a \in 1 .. Len(cities)} = 0 .. n - 1
    /\ Len(rows) = n /\ \A a \in 1 .. n : Len(rows[a]) = n
    /\ \A a, b \in 1 .. n : a # b => DistanceOk(rows[a][b][1], xy[cities[a] + 1], xy[cities[b] + 1])
=============================================================================
