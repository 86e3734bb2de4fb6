----------------------------- MODULE ConvTrace ------------------------------
(* Recorded results of the layers and of the network, one per item.           *)
EXTENDS Convolution, TLC, Json, IOUtils

CONSTANT Props
Items == TLCEval(JsonDeserialize(IOEnv.TRACE))
VARIABLES at, bad
K == Items[at]

Shape(s, n) == Len(s) = n
\* out: batch x cities x features, or batch x cities x cities x features
Shaped3(out, x, h) == Len(out) = Len(x) /\ \A b \in 1 .. Len(x) : Len(out[b]) = Len(x[b]) /\ \A k \in 1 .. Len(x[b]) : Len(out[b][k]) = h
Shaped4(out, e, h) == Len(out) = Len(e) /\ \A b \in 1 .. Len(e) : Shaped3(out[b], e[b], h)
EdgeRight ==
    /\ Shaped4(K.out, K.e, Len(K.U.b))
    /\ \A b \in 1 .. Len(K.e) : \A k, l \in 1 .. Len(K.x[b]) :
          LET r == EdgeOut(K.U, K.V, K.x[b], K.e[b], k, l) IN \A h \in 1 .. Len(r) : Abs(K.out[b][k][l][h] - 1000 * r[h]) <= 1
NodeRight ==
    /\ Shaped3(K.out, K.x, Len(K.U.b))
    /\ \A b \in 1 .. Len(K.x) : \A k \in 1 .. Len(K.x[b]) :
          LET u == Lin(K.U, K.x[b][k])  s == Heard(K.V, K.x[b], K.g[b], k)
          IN \A h \in 1 .. Len(u) :
                LET d == K.out[b][k][h] - 1000 * u[h]  t == Open(K.g[b], k, h)
                IN IF K.agg = "sum" THEN Abs(d - 250 * s[h]) <= 1
                   ELSE IF t = 0 THEN Abs(d) <= 1 ELSE Abs(d) < 1000000 /\ Abs(d * t - 1000 * s[h]) <= t
Flat(x) == [q \in 1 .. Len(x) * Len(x[1]) |-> x[(q - 1) \div Len(x[1]) + 1][((q - 1) % Len(x[1])) + 1]]
Column(rows, h) == [k \in 1 .. Len(rows) |-> rows[k][h]]
RowsRight(rows, outs, relu) == \A h \in 1 .. Len(rows[1]) : NormOk(Column(rows, h), Column(outs, h), relu)
NormNodeRight == Shaped3(K.out, K.x, K.h) /\ RowsRight(Flat(K.x), Flat(K.out), FALSE)
FlatE(e) == Flat([b \in 1 .. Len(e) |-> Flat(e[b])])
NormEdgeRight == Shaped4(K.out, K.x, K.h) /\ RowsRight(FlatE(K.x), FlatE(K.out), FALSE)
MlpRight == /\ Shaped3(K.out, K.x, Len(K.last.b))
            /\ \A b \in 1 .. Len(K.x) : \A k \in 1 .. Len(K.x[b]) :
                  LET r == Mlp(K.more, K.last, K.x[b][k]) IN \A h \in 1 .. Len(r) : Abs(K.out[b][k][h] - 1000 * r[h]) <= 1
LayerRight ==
    LET B == Len(K.x)
        n == Len(K.x[1])
        t == [b \in 1 .. B |-> [k \in 1 .. n |-> [l \in 1 .. n |-> EdgeOut(K.p["edge_feat.U"], K.p["edge_feat.V"], K.x[b], K.e[b], k, l)]]]
        g == [b \in 1 .. B |-> [k \in 1 .. n |-> [l \in 1 .. n |-> [h \in 1 .. K.h |-> Gate(t[b][k][l][h])]]]]
        y == [b \in 1 .. B |-> [k \in 1 .. n |-> NodeOut(K.p["node_feat.U"], K.p["node_feat.V"], K.x[b], g[b], K.agg, k)]]
    IN /\ Shaped3(K.xout, K.x, K.h) /\ Shaped4(K.eout, K.e, K.h)
       /\ RowsRight(TLCEval(FlatE(t)), FlatE(K.eout), TRUE)
       /\ RowsRight(TLCEval(Flat(y)), Flat(K.xout), TRUE)
HeadRight ==
    /\ Shaped3(K.out, K.kinds, Len(K.last.b))
    /\ \A k, l \in 1 .. K.n :
          LET z == [h \in 1 .. Len(K.wval) |-> K.wval[h][1] * K.values[k][l]] \o K.wkind[K.kinds[k][l] + 1]
              r == Mlp(K.more, K.last, z)
          IN \A h \in 1 .. Len(r) : Abs(K.out[k][l][h] - 1000 * r[h]) <= 1
Matrix(a, n) == Len(a) = n /\ \A k \in 1 .. n : Len(a[k]) = n
\* The numbering does not matter, nor the direction of an edge between two cities that are neighbours of each other or not.
SameRight ==
    /\ Matrix(K.base, K.n) /\ Len(K.outs) = Len(K.perms)
    /\ \A q \in 1 .. Len(K.perms) : Matrix(K.outs[q], K.n) /\ Close(K.outs[q], Renumbered2(K.perms[q], K.base), 2)
    /\ (\A k, l \in 1 .. K.n : K.kinds[k][l] = K.kinds[l][k]) => \A k, l \in 1 .. K.n : Abs(K.base[k][l] - K.base[l][k]) <= 2
\* The network is its layers, one after the other.
ChainRight == Matrix(K.base, K.n) /\ Len(K.outs) = 1 /\ Matrix(K.outs[1], K.n) /\ Close(K.base, K.outs[1], 2)
Right == IF K.error # "" THEN FALSE ELSE
    CASE K.kind = "edge" -> EdgeRight [] K.kind = "node" -> NodeRight [] K.kind = "normnode" -> NormNodeRight
      [] K.kind = "normedge" -> NormEdgeRight [] K.kind = "mlp" -> MlpRight [] K.kind = "layer" -> LayerRight
      [] K.kind = "head" -> HeadRight [] K.kind = "same" -> SameRight [] K.kind = "chain" -> ChainRight

Init == at = 0 /\ bad = 0
Event == /\ at < Len(Items) /\ at' = at + 1
         /\ LET r == TLCEval(IF at = 0 THEN TRUE ELSE Right)
            IN IF r THEN bad' = bad ELSE PrintT(<<"FAULT", at, 1, Props>>) /\ bad' = bad + 1
Finish == /\ at = Len(Items) /\ at' = at + 1
          /\ LET b == bad + (IF TLCEval(IF at = 0 THEN TRUE ELSE Right) THEN 0 ELSE 1)
             IN bad' = b /\ (IF b = bad THEN TRUE ELSE PrintT(<<"FAULT", at, 1, Props>>)) /\ PrintT(<<"DONE", at, b>>)
Next == Event \/ Finish
TraceSpec == Init /\ [][Next]_<<at, bad>>
=============================================================================
