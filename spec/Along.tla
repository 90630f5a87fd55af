-------------------------------- MODULE Along --------------------------------
(* What is done along trajectories (segments of networks): missing dates, interpolation, smoothing, relatives kept.
   A table is a sequence of rows [g, t, ..], g: group (trajectory, or network and segment), rows of a group follow each other,
   times increase in a group; g = 0: untracked, no link between them.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
Abs(a) == IF a < 0 THEN -a ELSE a
SameGroup(R, i, j) == R[i].g = R[j].g /\ R[i].g # 0
Follow(R) == {i \in 1..(Len(R) - 1) : SameGroup(R, i, i + 1)}
(* twice the median of numbers *)
Median2(s) == LET v == SortSeq(s, LAMBDA a, b : a < b) n == Len(v) IN IF n % 2 = 1 THEN 2 * v[(n + 1) \div 2] ELSE v[n \div 2] + v[(n \div 2) + 1]
Diffs(R) == LET F == SetToSortSeq(Follow(R), LAMBDA a, b : a < b) IN [k \in DOMAIN F |-> R[F[k] + 1].t - R[F[k]].t]
(* number of rows missing after a row; dt2: twice the expected delay *)
MissingAfter(R, i, dt2) == IF i \in Follow(R) /\ 2 * (R[i + 1].t - R[i].t) > dt2 THEN ((2 * (R[i + 1].t - R[i].t)) \div dt2) - 1 ELSE 0
Missing(R, dt2) == FoldLeft(LAMBDA s, i : s \o [k \in 1..MissingAfter(R, i, dt2) |-> i], <<>>, [i \in 1..Len(R) |-> i])
(* the table with its virtual rows: sequence of <<row before, rank, number of missing rows there>>; rank 0: the row itself *)
Filled(R, dt2) == FoldLeft(LAMBDA s, i : LET n == MissingAfter(R, i, dt2) IN s \o [k \in 1..(n + 1) |-> <<i, k - 1, n>>], <<>>, [i \in 1..Len(R) |-> i])
NewPlace(L, i) == CHOOSE k \in DOMAIN L : L[k][1] = i /\ L[k][2] = 0
(* value of a field, times (n + 1) *)
Between(a, b, k, n) == ((n + 1 - k) * a) + (k * b)
(* twice the median of the values of the group at half a window or less *)
Smooth2(R, i, hw, y) == LET W == SetToSortSeq({j \in DOMAIN R : SameGroup(R, i, j) /\ Abs(R[j].t - R[i].t) <= hw}, LAMBDA a, b : a < b) IN Median2([k \in DOMAIN W |-> y[W[k]]])
Cube(v) == v * v * v
Weight(hw, d) == Cube(Cube(hw) - Cube(d))
(* <<sum of weights, weighted sum>> of the group at less than half a window *)
Loess(R, i, hw, y) == FoldSet(LAMBDA j, s : LET w == Weight(hw, Abs(R[j].t - R[i].t)) IN <<s[1] + w, s[2] + (w * y[j])>>, <<0, 0>>,
                        {j \in DOMAIN R : SameGroup(R, i, j) /\ Abs(R[j].t - R[i].t) < hw})
(* relatives (0: none) in the table with virtual rows: from a row to the next one of its group by the virtual rows, to others as before *)
NextIn(R, L, k) == LET i == L[k][1] IN
  IF L[k][2] < L[k][3] THEN k + 1 ELSE IF L[k][2] > 0 THEN NewPlace(L, i + 1) ELSE IF R[i].n = 0 THEN 0 ELSE NewPlace(L, R[i].n)
PreviousIn(R, L, k) == LET i == L[k][1] IN
  IF L[k][2] > 0 THEN k - 1
  ELSE IF i > 1 /\ L[k - 1][2] > 0 THEN k - 1 ELSE IF R[i].p = 0 THEN 0 ELSE NewPlace(L, R[i].p)
==============================================================================
