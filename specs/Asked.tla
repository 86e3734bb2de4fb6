------------------------------- MODULE Asked --------------------------------
(* What happens to the network before its answer counts: it is made for a     *)
(* number of cities, takes the trained weights of a size, is put into         *)
(* evaluation mode, and is asked. want: the size that the caller asked for.   *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

VARIABLES want, made, weights, mode, answers
avars == <<want, made, weights, mode, answers>>

Begin(m) == want = m /\ made = 0 /\ weights = 0 /\ mode = "train" /\ answers = 0
Make(k) == made' = k /\ weights' = 0 /\ mode' = "train" /\ UNCHANGED <<want, answers>>
Take(k) == made > 0 /\ weights' = k /\ UNCHANGED <<want, made, mode, answers>>
Switch(x) == made > 0 /\ mode' = x /\ UNCHANGED <<want, made, weights, answers>>
Ready == made = want /\ weights = want /\ mode = "eval"
Ask == Ready /\ answers' = answers + 1 /\ UNCHANGED <<want, made, weights, mode>>

(* The question: at[k]: the place of the k-th city of the input, two integers *)
(* in thousandths; near: the number of neighbours, or -1 for all.             *)
Sq(x) == x * x
Apart(at, k, l) == Sq(at[k][1] - at[l][1]) + Sq(at[k][2] - at[l][2])
\* d: in ten thousandths, rounded
DistanceOk(d, s) == d >= 0 /\ (d = 0 \/ Sq(d - 1) <= s * 100) /\ s * 100 <= Sq(d + 1)
ValuesOk(at, values) ==
    \A k, l \in 1 .. Len(at) : IF k = l THEN values[k][l] = 0 ELSE DistanceOk(values[k][l], Apart(at, k, l))
\* Its row of the kinds of edges: 2 for itself, 1 for its neighbours: as many as asked for and none of the others is nearer.
RowOk(at, row, k, near) ==
    LET others == (1 .. Len(at)) \ {k}
        chosen == {l \in others : row[l] = 1}
    IN /\ row[k] = 2 /\ \A l \in others : row[l] \in {0, 1}
       /\ IF near = -1 THEN chosen = others
          ELSE /\ Cardinality(chosen) = near
               /\ LET far == Max({Apart(at, k, l) : l \in chosen} \cup {0})
                  IN \A l \in others \ chosen : Apart(at, k, l) >= far
KindsOk(at, kinds, near) == \A k \in 1 .. Len(at) : RowOk(at, kinds[k], k, near)
QuestionOk(m, at, nodes, values, kinds, near) ==
    /\ Len(at) = m /\ Len(nodes) = m /\ Len(values) = m /\ Len(kinds) = m
    /\ \A k \in 1 .. m : nodes[k] = 1 /\ Len(values[k]) = m /\ Len(kinds[k]) = m
    /\ ValuesOk(at, values) /\ KindsOk(at, kinds, near)
\* One way to choose neighbours; the specification allows any among equals.
RECURSIVE Nearest(_, _, _, _)
Nearest(at, k, near, got) ==
    IF Cardinality(got) = near THEN got
    ELSE LET rest == (1 .. Len(at)) \ (got \cup {k})
             l == CHOOSE l \in rest : \A o \in rest : Apart(at, k, l) <= Apart(at, k, o)
         IN Nearest(at, k, near, got \cup {l})
Kinds(at, near) ==
    [k \in 1 .. Len(at) |-> LET c == IF near = -1 THEN 1 .. Len(at) ELSE Nearest(at, k, near, {})
                            IN [l \in 1 .. Len(at) |-> IF k = l THEN 2 ELSE IF l \in c THEN 1 ELSE 0]]
=============================================================================
