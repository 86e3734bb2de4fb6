-------------------------------- MODULE Mst ---------------------------------
(* Weighted graphs, spanning trees, and the two greedy algorithms as state    *)
(* machines. A graph G is a record [n, e]; e is a set of <<s, d, w>>, at most *)
(* one edge per pair of the vertices 0..n-1.                                  *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

Vs(G) == 0 .. (G.n - 1)
Src(x) == x[1]
Dst(x) == x[2]
Wt(x) == x[3]
Total(S) == MapThenSumSet(Wt, S)
OtherEnd(x, v) == IF Src(x) = v THEN Dst(x) ELSE Src(x)

RECURSIVE Grow(_, _)
Grow(S, X) ==
    LET Y == X \cup {Dst(x) : x \in {y \in S : Src(y) \in X}} \cup {Src(x) : x \in {y \in S : Dst(y) \in X}}
    IN IF Y = X THEN X ELSE Grow(S, Y)
Connected(G) == G.n > 0 => Grow(G.e, {0}) = Vs(G)

\* T is a spanning tree of G.
Spanning(G, T) == T \subseteq G.e /\ Cardinality(T) = G.n - 1 /\ Grow(T, {0}) = Vs(G)

\* No edge of the tree can be replaced by a cheaper one (equivalent to least total weight: MstDesign).
NoCheaperSwap(G, T) ==
    \A f \in T : LET side == Grow(T \ {f}, {Src(f)})
                 IN \A x \in G.e \ T : ((Src(x) \in side) # (Dst(x) \in side)) => Wt(x) >= Wt(f)

IsMst(G, T) == Spanning(G, T) /\ NoCheaperSwap(G, T)

(* The faults of a computed tree r = [valid, cost, n, t]; t is the sequence   *)
(* of its edges, each with the smaller end first.                             *)
TreeOk(G, r) ==
    /\ (r.valid = 1) <=> Connected(G)
    /\ r.valid = 1 => /\ r.n = Len(r.t)
                      /\ Len(r.t) = G.n - 1
                      /\ IsMst(G, ToSet(r.t))
                      /\ r.cost = Total(ToSet(r.t))
=============================================================================
