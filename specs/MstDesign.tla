----------------------------- MODULE MstDesign ------------------------------
(* Both greedy algorithms, with every choice among equals, on every weighted  *)
(* graph with N vertices and weights of Weights: the tree they end with has   *)
(* the least total weight, and the exchange criterion used to check the code  *)
(* says so exactly for the least trees. Every graph is printed for the        *)
(* conformance check, with the least total weight (-1: not connected).        *)
EXTENDS Mst, TLC, Json

CONSTANTS N, Weights, Emit
VARIABLES G, alg, T, rest, seen
vars == <<G, alg, T, rest, seen>>

PairSet == {<<i, j>> \in (0 .. N - 1) \X (0 .. N - 1) : i < j}
Graphs == UNION {{[n |-> N, e |-> {<<q[1], q[2], f[q]>> : q \in P}] : f \in [P -> Weights]} : P \in SUBSET PairSet}

Trees(g) == IF Cardinality(g.e) < N - 1 THEN {} ELSE {S \in kSubset(N - 1, g.e) : Spanning(g, S)}
Least(g) == IF Trees(g) = {} THEN -1 ELSE Min({Total(S) : S \in Trees(g)})

Init ==
    /\ G \in Graphs /\ alg \in {"prim", "kruskal"} /\ T = {}
    /\ rest = G.e /\ seen = {0}
    /\ (Emit = 1 /\ alg = "prim") => PrintT("SEQ " \o ToJson(<<G.e, Least(G)>>))

\* Kruskal: the next lightest edge, taken when it joins two parts.
Kruskal ==
    /\ alg = "kruskal" /\ rest # {}
    /\ \E x \in rest :
        /\ \A y \in rest : Wt(x) <= Wt(y)
        /\ rest' = rest \ {x}
        /\ T' = IF Dst(x) \in Grow(T, {Src(x)}) THEN T ELSE T \cup {x}
    /\ UNCHANGED <<G, alg, seen>>

\* Prim: the lightest edge that leaves the tree.
Cut == {x \in G.e : (Src(x) \in seen) # (Dst(x) \in seen)}
Prim ==
    /\ alg = "prim" /\ Cut # {}
    /\ \E x \in Cut :
        /\ \A y \in Cut : Wt(x) <= Wt(y)
        /\ T' = T \cup {x}
        /\ seen' = seen \cup {Src(x), Dst(x)}
    /\ UNCHANGED <<G, alg, rest>>

Next == Kruskal \/ Prim
Spec == Init /\ [][Next]_vars

Done == (alg = "kruskal" /\ rest = {}) \/ (alg = "prim" /\ Cut = {})
Right == Done => IF Connected(G) THEN Spanning(G, T) /\ Total(T) = Least(G) ELSE Cardinality(T) < N - 1
ForestSafe == Cardinality(T) <= N - 1 /\ (Cardinality(T) = N - 1 => Spanning(G, T))
\* Only looked at once per graph.
Criterion == (T = {} /\ alg = "prim" /\ seen = {0}) =>
                \A S \in Trees(G) : NoCheaperSwap(G, S) <=> Total(S) = Least(G)
=============================================================================
