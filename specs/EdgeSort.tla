------------------------------ MODULE EdgeSort ------------------------------
(* The edges of a graph as a sequence with lookups, and what sorting means.   *)
(* An edge is <<s, d, w, p>>.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

\* x may stand before y.
Before(x, y, hyb) == x[3] < y[3] \/ (x[3] = y[3] /\ (hyb = 0 \/ x[4] >= y[4]))
Ordered(s, hyb) == \A k \in 1 .. Len(s) - 1 : Before(s[k], s[k + 1], hyb)

\* The same edges: there is at most one per pair, so the sets tell.
SameEdges(a, b) == Len(a) = Len(b) /\ ToSet(a) = ToSet(b)

(* r = [s, pos, look, again]: the sorted sequence, the position recorded in   *)
(* each of its edges, for each edge of the input in order its two lookups     *)
(* <<position, w, p, right ends>>, and whether a second sort changed nothing. *)
SortOk(input, r, hyb) ==
    /\ SameEdges(input, r.s)
    /\ Ordered(r.s, hyb)
    /\ \A k \in 1 .. Len(r.s) : r.pos[k] = k - 1
    /\ \A k \in 1 .. Len(input) : \A x \in {r.look[2 * k - 1], r.look[2 * k]} :
          /\ x[1] \in 0 .. Len(r.s) - 1
          /\ r.s[x[1] + 1] = input[k]
          /\ x[2] = input[k][3] /\ x[3] = input[k][4] /\ x[4] = 1
    /\ r.again = 1
=============================================================================
