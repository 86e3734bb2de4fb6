---------------------------- MODULE Convolution -----------------------------
(* What the layers of the network compute, on integers. x[i]: the features of *)
(* city i, e[i][j]: of the edge from i to j, g[i][j]: its gates in quarters.  *)
(* A map is [w |-> rows, b |-> offsets]. Results are given in thousandths.    *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Total(_, _)
Total(f, k) == IF k = 0 THEN 0 ELSE f[k] + Total(f, k - 1)
Abs(v) == IF v < 0 THEN -v ELSE v
Dot(a, b) == Total([k \in 1 .. Len(a) |-> a[k] * b[k]], Len(a))
Lin(P, z) == [o \in 1 .. Len(P.w) |-> Dot(P.w[o], z) + P.b[o]]
Relu(z) == [k \in 1 .. Len(z) |-> IF z[k] > 0 THEN z[k] ELSE 0]

\* An edge hears from itself and from both its ends, alike.
EdgeOut(U, V, x, e, i, j) ==
    LET a == Lin(U, e[i][j])  b == Lin(V, x[i])  c == Lin(V, x[j]) IN [h \in 1 .. Len(a) |-> a[h] + b[h] + c[h]]
\* A city hears from itself and from all the others, as far as the gates of its edges let through.
Heard(V, x, g, i) == LET v == [j \in 1 .. Len(x) |-> Lin(V, x[j])]
                     IN [h \in 1 .. Len(V.b) |-> Total([j \in 1 .. Len(x) |-> g[i][j][h] * v[j][h]], Len(x))]      \* quarters
Open(g, i, h) == Total([j \in 1 .. Len(g[i]) |-> g[i][j][h]], Len(g[i]))
\* In sixtieths; exact where the sum of the gates in halves divides 60.
NodeOut(U, V, x, g, agg, i) ==
    LET u == Lin(U, x[i])  s == Heard(V, x, g, i)
    IN [h \in 1 .. Len(u) |-> 60 * u[h] + (IF agg = "sum" THEN 15 * s[h] ELSE IF Open(g, i, h) = 0 THEN 0 ELSE (60 * s[h]) \div Open(g, i, h))]
RECURSIVE Through(_, _)
Through(more, z) == IF more = <<>> THEN z ELSE Through(Tail(more), Relu(Lin(Head(more), z)))
Mlp(more, last, z) == Lin(last, Through(more, z))
\* The gate of an edge whose value is a large multiple of t: shut, half or open.
Gate(t) == IF t < 0 THEN 0 ELSE IF t = 0 THEN 2 ELSE 4

(* Normalisation of a column of numbers: mean 0, variance 1.                  *)
RECURSIVE Root(_, _)
Root(q, r) == LET s == (r + q \div r) \div 2 IN IF s >= r THEN r ELSE Root(q, s)
Sqrt(q) == IF q = 0 THEN 0 ELSE Root(q, IF q > 40000 THEN 46340 ELSE q)
NormOk(col, out, relu) ==
    LET n == Len(col)
        s == Total(col, n)
        d == [k \in 1 .. n |-> n * col[k] - s]
        q == Total([k \in 1 .. n |-> d[k] * d[k]], n)
        f == IF q <= 200000 THEN 100 ELSE IF q <= 20000000 THEN 10 ELSE 1
        r == Sqrt((q * f * f) \div n)
    IN \A k \in 1 .. n : IF q = 0 \/ (relu /\ d[k] <= 0) THEN Abs(out[k]) <= 1
                         ELSE Abs(out[k]) <= 40000 /\ Abs(out[k] * r - 1000 * d[k] * f) <= 2 * r + Abs(out[k])

(* A numbering p: the city k of the new instance is p[k] of the old one.      *)
Renumbered(p, s) == [k \in 1 .. Len(s) |-> s[p[k]]]
Renumbered2(p, m) == [k \in 1 .. Len(m) |-> Renumbered(p, m[p[k]])]
Close(a, b, tol) == \A k, l \in 1 .. Len(a) : Abs(a[k][l] - b[k][l]) <= tol
=============================================================================
