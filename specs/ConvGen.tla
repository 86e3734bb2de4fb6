------------------------------ MODULE ConvGen -------------------------------
(* All small instances: N cities with one feature from Xs, edges with one     *)
(* feature from Es (less 1), one of three pairs of maps; and that the layers commute   *)
(* with renumbering, and treat both directions of an edge alike.              *)
EXTENDS Convolution, TLC, Json, FiniteSetsExt

CONSTANTS N, Xs, Es, Symmetric

VARIABLES x, e, m, shown
gvars == <<x, e, m, shown>>

Maps == <<[U |-> [w |-> <<<<2>>>>, b |-> <<1>>], V |-> [w |-> <<<<3>>>>, b |-> <<0 - 1>>]],
          [U |-> [w |-> <<<<0 - 1>>>>, b |-> <<0>>], V |-> [w |-> <<<<1>>>>, b |-> <<2>>]],
          [U |-> [w |-> <<<<1>>>>, b |-> <<0>>], V |-> [w |-> <<<<0 - 2>>>>, b |-> <<1>>]]>>
U == Maps[m].U
V == Maps[m].V
Init == /\ x \in [1 .. N -> {<<k - 1>> : k \in Xs}] /\ e \in [1 .. N -> [1 .. N -> {<<k - 1>> : k \in Es}]] /\ m \in 1 .. 3 /\ shown = FALSE
        /\ Symmetric => \A k, l \in 1 .. N : e[k][l] = e[l][k]
Next == ~shown /\ PrintT("SEQ " \o ToJson(<<x, e, m>>)) /\ shown' = TRUE /\ UNCHANGED <<x, e, m>>
Spec == Init /\ [][Next]_gvars

Gates(ee) == [i \in 1 .. N |-> [j \in 1 .. N |-> [h \in 1 .. 1 |-> Gate(ee[i][j][h])]]]
AllEdges(xx, ee) == [i \in 1 .. N |-> [j \in 1 .. N |-> EdgeOut(U, V, xx, ee, i, j)]]
AllNodes(xx, ee, agg) == [i \in 1 .. N |-> NodeOut(U, V, xx, Gates(AllEdges(xx, ee)), agg, i)]
Renumbers == {p \in [1 .. N -> 1 .. N] : Cardinality({p[k] : k \in 1 .. N}) = N}
Equivariant == shown => \A p \in Renumbers :
    LET px == Renumbered(p, x)  pe == Renumbered2(p, e)
    IN /\ AllEdges(px, pe) = Renumbered2(p, AllEdges(x, e))
       /\ \A agg \in {"sum", "mean"} : AllNodes(px, pe, agg) = Renumbered(p, AllNodes(x, e, agg))
BothWays == (shown /\ \A k, l \in 1 .. N : e[k][l] = e[l][k]) => \A k, l \in 1 .. N : AllEdges(x, e)[k][l] = AllEdges(x, e)[l][k]
=============================================================================
