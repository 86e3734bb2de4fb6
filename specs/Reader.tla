------------------------------- MODULE Reader -------------------------------
(* Reading an instance file, entry by entry. A matrix file is a sequence of   *)
(* lines; the first holds a coordinate pair per vertex, the others hold the   *)
(* entries of a row. An entry is <<w, p>>, a weight and a probability (codes: *)
(* integers that are equal, zero or negative as the numbers in the file are), *)
(* or Bad: it cannot be parsed. Entries of the diagonal are not looked at.    *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

Bad == <<>>

VARIABLES
    built, hyb,            \* what the solver was built for, and its mode
    file,                  \* the lines
    row, col,              \* the position of the next entry: row 0 is the line of coordinates
    xy,                    \* the coordinates read
    edges,                 \* the edges read: <<i, j, w, p>> with i < j, in order
    near,                  \* the neighbours: a set of pairs <<i, j>>
    verdict                \* "reading", "accepted" or "rejected"
rvars == <<built, hyb, file, row, col, xy, edges, near, verdict>>

Open(b, h, f) == built = b /\ hyb = h /\ file = f /\ row = 0 /\ col = 0 /\ xy = <<>> /\ edges = <<>> /\ near = {} /\ verdict = "reading"

Reject == verdict' = "rejected" /\ UNCHANGED <<built, hyb, file, row, col, xy, edges, near>>
Forward == col' = col + 1 /\ UNCHANGED <<built, hyb, file, row, verdict>>

Line == file[row + 1]
Entry == Line[col + 1]

ReadCoordinates ==
    /\ row = 0 /\ col < Len(Line)
    /\ IF Entry = Bad \/ col = built THEN Reject
       ELSE xy' = Append(xy, Entry) /\ UNCHANGED <<edges, near>> /\ Forward

ReadEntry ==
    /\ row > 0 /\ col < Len(Line)
    /\ IF row > built \/ col = built \/ (Entry = Bad /\ col # row - 1) THEN Reject
       ELSE LET i == row - 1 IN
            /\ Forward /\ UNCHANGED xy
            /\ IF col = i \/ Entry[1] <= 0 THEN UNCHANGED <<edges, near>>
               ELSE /\ near' = near \cup {<<i, col>>}
                    /\ edges' = IF col > i THEN Append(edges, <<i, col, Entry[1], IF hyb = 1 THEN Entry[2] ELSE 0>>) ELSE edges

NextLine ==
    /\ col = Len(Line)
    /\ IF row + 1 < Len(file) /\ row = built THEN Reject
       ELSE /\ row' = row + 1 /\ col' = 0
            /\ verdict' = IF row + 1 = Len(file) THEN "accepted" ELSE "reading"
            /\ UNCHANGED <<built, hyb, file, xy, edges, near>>

ReadNext == verdict = "reading" /\ (ReadCoordinates \/ ReadEntry \/ NextLine)

\* What reading should come to, seen from the whole file.
Rows == Len(file) - 1
WellFormed ==
    /\ Len(file[1]) <= built /\ Rows <= built
    /\ \A k \in 1 .. Len(file[1]) : file[1][k] # Bad
    /\ \A i \in 1 .. Rows : Len(file[i + 1]) <= built /\ \A j \in 1 .. Len(file[i + 1]) : i = j \/ file[i + 1][j] # Bad
Square == \A i \in 0 .. Rows : Len(file[i + 1]) = Rows
Symmetric == \A i, j \in 1 .. Rows : i # j => file[i + 1][j] = file[j + 1][i]
Holds(i, j) == file[i + 2][j + 1]
EdgeSet == {edges[k] : k \in 1 .. Len(edges)}
Faithful ==
    verdict # "reading" =>
        /\ (verdict = "accepted") <=> WellFormed
        /\ (verdict = "accepted" /\ Square /\ Symmetric) =>
            /\ xy = file[1]
            /\ Cardinality(EdgeSet) = Len(edges)
            /\ EdgeSet = {<<q[1], q[2], Holds(q[1], q[2])[1], IF hyb = 1 THEN Holds(q[1], q[2])[2] ELSE 0>> :
                          q \in {r \in (0 .. Rows - 1) \X (0 .. Rows - 1) : r[1] < r[2] /\ Holds(r[1], r[2])[1] > 0}}
            /\ near = {<<e[1], e[2]>> : e \in EdgeSet} \cup {<<e[2], e[1]>> : e \in EdgeSet}

(* The graph the code built: [n, m, cost, nodes, edges, look]; nodes: [pos,   *)
(* x, y, nb], an edge [s, d, w, p, pos]; look: both lookups of each edge.     *)
Total(E) == FoldSet(LAMBDA e, a : a + e[3], 0, E)
GraphOk(g, n, coords, E) ==
    /\ g.n = n /\ Len(g.nodes) = n
    /\ \A k \in 1 .. n : /\ g.nodes[k].pos = k - 1
                         /\ <<g.nodes[k].x, g.nodes[k].y>> = coords[k]
                         /\ LET nb == g.nodes[k].nb
                                want == {e[2] : e \in {f \in E : f[1] = k - 1}} \cup {e[1] : e \in {f \in E : f[2] = k - 1}}
                            IN Len(nb) = Cardinality(want) /\ {nb[j] : j \in 1 .. Len(nb)} = want
    /\ g.m = Cardinality(E) /\ Len(g.edges) = g.m
    /\ {<<g.edges[k].s, g.edges[k].d, g.edges[k].w, g.edges[k].p>> : k \in 1 .. g.m} = E
    /\ \A k \in 1 .. g.m : g.edges[k].pos = k - 1 /\ g.look[2 * k - 1] = g.edges[k] /\ g.look[2 * k] = g.edges[k]
    /\ g.cost = Total(E)
=============================================================================
