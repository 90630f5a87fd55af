------------------------------ MODULE GridFile ------------------------------
(* A dataset of grids on a file. File content: name -> sequence (by date) of matrices (sequence by longitude of sequences by
   latitude), whatever the order of the dimensions on the disk. The dataset holds in memory the grids which were asked for
   (read once, at the asked index of the other dimensions), copied or modified.                                         *)
EXTENDS Integers, Sequences, FiniteSets
(* o: [t, x0, x1, y0, y1] index of date of the dataset (from 0) and ranges of the coordinates kept *)
Sub(M, x0, x1, y0, y1) == [i \in 1..(x1 - x0) |-> SubSeq(M[x0 + i], y0 + 1, y1)]
Slice(F, o, name, t) == LET s == F[name] k == IF t >= 0 THEN t ELSE o.t IN Sub(s[IF Len(s) = 1 THEN 1 ELSE k + 1], o.x0, o.x1, o.y0, o.y1)
Has(m, name) == name \in DOMAIN m
Put(m, name, v) == [a \in DOMAIN m \cup {name} |-> IF a = name THEN v ELSE m[a]]
(* memory after the name was asked for at date t (-1: the one of the dataset) *)
Asked(m, F, o, name, t) == IF Has(m, name) THEN m ELSE Put(m, name, Slice(F, o, name, t))
Copied(m, F, o, a, b) == LET n == Asked(m, F, o, a, -1) IN Put(n, b, n[a])
Changed(m, F, o, a, i, j, v) == LET n == Asked(m, F, o, a, -1) IN Put(n, a, [n[a] EXCEPT ![i][j] = v])
(* a collection: sequence of [t, k, on, m]: date, number of its data, loaded, what is in memory (1 matrix or none) *)
At(S, t) == {q \in DOMAIN S : S[q].t = t}
First(S, t) == CHOOSE q \in At(S, t) : \A r \in At(S, t) : q <= r
Loaded(S, q) == [S EXCEPT ![q].on = TRUE]
NbOn(S) == Cardinality({q \in DOMAIN S : S[q].on})
Reset(S, n) == IF n >= 0 /\ NbOn(S) > n THEN [q \in DOMAIN S |-> [S[q] EXCEPT !.on = FALSE, !.m = <<>>]] ELSE S
Kept(S, q, D) == IF S[q].m = <<>> THEN D[S[q].k] ELSE S[q].m[1]
Read(S, q, D) == [S EXCEPT ![q] = [@ EXCEPT !.on = TRUE, !.m = <<Kept(S, q, D)>>]]
Shifted(S, t, k) == Append(Tail(S), [t |-> t, k |-> k, on |-> TRUE, m |-> <<>>])
(* dates from the last one which is not after t, and back from the first which is not before *)
Onward(S, t) == LET B == {q \in DOMAIN S : S[q].t <= t} f == IF B = {} THEN 1 ELSE CHOOSE q \in B : \A r \in B : r <= q IN [q \in 1..(Len(S) - f + 1) |-> S[f + q - 1].t]
Back(S, t) == LET B == {q \in DOMAIN S : S[q].t >= t} f == IF B = {} THEN Len(S) ELSE CHOOSE q \in B : \A r \in B : r >= q IN [q \in 1..f |-> S[f - q + 1].t]
Turned(S, seq) == [q \in DOMAIN S |-> IF \E r \in DOMAIN seq : seq[r] = S[q].t THEN [S[q] EXCEPT !.on = TRUE] ELSE S[q]]
=============================================================================
