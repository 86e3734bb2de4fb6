-------------------------------- MODULE Seqs --------------------------------
(* The list containers as plain sequences (C17). Indices start at 0.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLE s

AddBottom(x) == s' = Append(s, x)
AddIndex(x, k) == s' = IF k <= Len(s) THEN SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s)) ELSE s
DelBottom == s' = IF s = <<>> THEN s ELSE SubSeq(s, 1, Len(s) - 1)
DelIndex(k) == s' = IF k < Len(s) THEN SubSeq(s, 1, k) \o SubSeq(s, k + 2, Len(s)) ELSE s
Get(k) == IF k < Len(s) THEN s[k + 1] ELSE 0          \* 0: no element
=============================================================================
