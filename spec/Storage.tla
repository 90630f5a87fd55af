------------------------------ MODULE Storage ------------------------------
(* Tables written in files and read back. A table is [f, sign]: f[name] is the sequence (by row) of the packed
   values (sequences of integers) of a field; a file holds the same, whatever its format and whether the table
   holds packed or decoded values.                                                                          *)
EXTENDS Integers, Sequences, FiniteSets
Names(T) == DOMAIN T.f
Size(T) == IF Names(T) = {} THEN 0 ELSE Len(T.f[CHOOSE a \in Names(T) : TRUE])
(* options of reading: keep (names) and rows from..to-1 (counted from 0; to is cut to the size) *)
Stop(n, o) == IF o.to > n THEN n ELSE o.to
Part(s, o) == SubSeq(s, o.from + 1, Stop(Len(s), o))
Read(T, o) == [f |-> [a \in Names(T) \cap o.keep |-> Part(T.f[a], o)], sign |-> T.sign]
(* several reads one after the other are one *)
RECURSIVE Through(_, _)
Through(T, os) == IF os = <<>> THEN T ELSE Through(Read(T, os[1]), SubSeq(os, 2, Len(os)))
(* packing of a value v (in tenths of the step) : nearest *)
Nearest(v) == (v + 5) \div 10
=============================================================================
