-------------------------------- MODULE Tsp --------------------------------
(* Instances of the travelling salesman problem, their tours, the decisions  *)
(* of the search and the 1-tree relaxation.                                   *)
(*                                                                            *)
(* An instance I is a record with                                             *)
(*   n    number of vertices 0..n-1                                           *)
(*   w    n x n matrix of integer weights, 0 = no edge                        *)
(*   p    n x n matrix of integer probabilities (millionths)                  *)
(*   eps  the tolerance, rounded down to the unit of the weights              *)
(*   hyb  1 in hybrid mode, 0 in classic mode                                 *)
(* An edge is coded as 64 * i + j with i < j.                                 *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

INF == 2000000000                  \* the cost of "no tour"
BetterProb == 50000                \* 0.05
HalfProb == 500000                 \* 0.5
ProbSlack == 2                     \* rounding of the recorded probabilities

E(i, j) == IF i < j THEN i * 64 + j ELSE j * 64 + i
Lo(e) == e \div 64
Hi(e) == e % 64
Touches(e, v) == Lo(e) = v \/ Hi(e) = v

Vertices(I) == 0 .. (I.n - 1)
W(I, e) == I.w[Lo(e) + 1][Hi(e) + 1]
Pr(I, e) == I.p[Lo(e) + 1][Hi(e) + 1]
Pairs(I) == {E(i, j) : i, j \in Vertices(I)} \ {E(i, i) : i \in Vertices(I)}
Edges(I) == {e \in Pairs(I) : W(I, e) > 0}

Cost(I, S) == MapThenSumSet(LAMBDA e : W(I, e), S)
ProbSum(I, S) == MapThenSumSet(LAMBDA e : Pr(I, e), S)

At(S, v) == {e \in S : Touches(e, v)}

\* The vertices reached from the set X over the edges S.
RECURSIVE Reach(_, _)
Reach(S, X) ==
    LET Y == X \cup {Lo(e) : e \in {f \in S : Hi(f) \in X}} \cup {Hi(e) : e \in {f \in S : Lo(f) \in X}}
    IN IF Y = X THEN X ELSE Reach(S, Y)

\* S is a Hamiltonian cycle of the instance.
IsTour(I, S) ==
    /\ I.n >= 3
    /\ Cardinality(S) = I.n
    /\ \A e \in S : Lo(e) < Hi(e) /\ Hi(e) < I.n /\ W(I, e) > 0
    /\ \A v \in Vertices(I) : Cardinality(At(S, v)) = 2
    /\ Reach(S, {0}) = Vertices(I)

\* All Hamiltonian cycles of the complete graph with n vertices.
RECURSIVE Walks(_, _, _)
Walks(last, rest, S) ==
    IF rest = {} THEN {S \cup {E(0, last)}}
    ELSE UNION {Walks(v, rest \ {v}, S \cup {E(last, v)}) : v \in rest}
CompleteTours(n) == Walks(0, 1 .. (n - 1), {})

Consistent(t, M, F) == M \subseteq t /\ t \cap F = {}

(* ------------------------------ 1-trees --------------------------------- *)

\* The edges that may appear in a 1-tree away from the starting vertex s, and at it.
Away(S, s) == {e \in S : ~Touches(e, s)}

\* A 1-tree at s under the decisions (M, F) exists. Decisions on pairs that are no edges do not count.
OneTreeExists(I, s, M, F) ==
    LET usable == Edges(I) \ F
        atS == At(usable, s)
        mandS == At(M \cap Edges(I), s)
        rest == Vertices(I) \ {s}
        v0 == CHOOSE v \in rest : TRUE
    IN /\ Cardinality(mandS) <= 2
       /\ Cardinality(atS \cup mandS) >= 2
       /\ Reach(Away(usable, s), {v0}) = rest

\* T is a 1-tree at s under the decisions (M, F).
IsOneTree(I, s, M, F, T) ==
    LET rest == Vertices(I) \ {s}
        TT == Away(T, s)
        TS == At(T, s)
        ME == M \cap Edges(I)
        v0 == CHOOSE v \in rest : TRUE
    IN /\ T \subseteq Edges(I) \ F
       /\ Cardinality(TS) = 2
       /\ At(ME, s) \subseteq TS
       /\ Cardinality(TT) = I.n - 2
       /\ Reach(TT, {v0}) = rest
       \* a mandatory edge is left out only when the mandatory edges inside already connect its ends
       /\ \A e \in Away(ME, s) \ TT : Hi(e) \in Reach(TT \cap ME, {Lo(e)})

\* No other 1-tree is cheaper by more than slack: exchange property of spanning trees, wt(e) the weight of an edge.
IsMinimum(I, s, M, F, T, wt(_), slack) ==
    LET usable == Edges(I) \ F
        TT == Away(T, s)
    IN /\ \A f \in At(T, s) \ M : \A e \in At(usable, s) \ T : wt(e) + slack >= wt(f)
       /\ \A f \in TT \ M :
            LET side == Reach(TT \ {f}, {Lo(f)})
            IN \A e \in Away(usable, s) \ TT :
                 ((Lo(e) \in side) # (Hi(e) \in side)) => wt(e) + slack >= wt(f)

\* The cost of a minimum 1-tree at s without decisions, by growing the cheapest tree (s must leave the rest connected).
RECURSIVE PrimTree(_, _, _, _)
PrimTree(I, X, S, T) ==
    LET cut == {e \in S : (Lo(e) \in X) # (Hi(e) \in X)}
    IN IF cut = {} THEN T
       ELSE LET best == CHOOSE e \in cut : \A f \in cut : W(I, e) <= W(I, f)
            IN PrimTree(I, X \cup {Lo(best), Hi(best)}, S, T \cup {best})

MinOneTree(I, s) ==
    LET v0 == CHOOSE v \in Vertices(I) \ {s} : TRUE
        tree == PrimTree(I, {v0}, Away(Edges(I), s), {})
        atS == At(Edges(I), s)
        a == CHOOSE e \in atS : \A f \in atS : W(I, e) <= W(I, f)
        b == CHOOSE e \in atS \ {a} : \A f \in atS \ {a} : W(I, e) <= W(I, f)
    IN tree \cup {a, b}

(* --------------------------- greedy walks -------------------------------- *)

\* All costs of tours made by the nearest neighbour rule from the vertex v0 (ties broken in every way).
RECURSIVE Nearest(_, _, _, _, _)
Nearest(I, v0, last, rest, c) ==
    IF rest = {} THEN IF W(I, E(v0, last)) > 0 THEN {c + W(I, E(v0, last))} ELSE {INF}
    ELSE LET next == {v \in rest : W(I, E(last, v)) > 0}
             best == {v \in next : \A u \in next : W(I, E(last, v)) <= W(I, E(last, u))}
         IN IF next = {} THEN {INF}
            ELSE UNION {Nearest(I, v0, v, rest \ {v}, c + W(I, E(last, v))) : v \in best}

\* The same for the highest probability neighbour.
RECURSIVE Likeliest(_, _, _, _, _)
Likeliest(I, v0, last, rest, c) ==
    IF rest = {} THEN IF W(I, E(v0, last)) > 0 THEN {c + W(I, E(v0, last))} ELSE {INF}
    ELSE LET next == {v \in rest : W(I, E(last, v)) > 0}
             best == {v \in next : \A u \in next : Pr(I, E(last, v)) >= Pr(I, E(last, u))}
         IN IF next = {} THEN {INF}
            ELSE UNION {Likeliest(I, v0, v, rest \ {v}, c + W(I, E(last, v))) : v \in best}

NearestCosts(I, v) == Nearest(I, v, v, Vertices(I) \ {v}, 0)
LikeliestCosts(I, v) == Likeliest(I, v, v, Vertices(I) \ {v}, 0)
=============================================================================
