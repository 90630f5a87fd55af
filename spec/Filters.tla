------------------------------- MODULE Filters -------------------------------
(* Low pass filters of a grid: mean of the known values around each node, weighted by the kernel of its latitude.
   A field is a sequence of columns (longitude first), a mask says with 1 what is unknown; a kernel has an odd number of
   columns and of rows, its middle goes on the node. Longitudes turn on circular grids.                                *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
Abs(a) == IF a < 0 THEN -a ELSE a
(* place in the kernel -> node of the grid, <<0, 0>> when out *)
Under(x, y, p, K, nx, ny, circ) ==
  LET x1 == x + p[1] - ((Len(K) + 1) \div 2) y1 == y + p[2] - ((Len(K[1]) + 1) \div 2)
      x2 == IF circ THEN ((x1 - 1) % nx) + 1 ELSE x1 IN
  IF x2 \in 1..nx /\ y1 \in 1..ny THEN <<x2, y1>> ELSE <<0, 0>>
(* sum of weights, sum of weighted values, sum of absolute values, number; of known nodes *)
Sums(f, m, x, y, K, circ) ==
  LET nx == Len(f) ny == Len(f[1]) IN
  FoldSet(LAMBDA p, s : LET q == Under(x, y, p, K, nx, ny, circ) IN
      IF q[1] = 0 THEN s ELSE IF m[q[1]][q[2]] = 1 THEN s
      ELSE <<s[1] + K[p[1]][p[2]], s[2] + (K[p[1]][p[2]] * f[q[1]][q[2]]), s[3] + Abs(f[q[1]][q[2]]), s[4] + 1>>,
    <<0, 0, 0, 0>>, (1..Len(K)) \X (1..Len(K[1])))
Total(K) == FoldSet(LAMBDA p, s : s + K[p[1]][p[2]], 0, (1..Len(K)) \X (1..Len(K[1])))
(* rows which are not filtered: out of the latitudes, or without any value *)
Idle(m, y, on) == ~on[y] \/ \A x \in DOMAIN m : m[x][y] = 1
(* extend (in quarters): part of the weight which is enough to give a value to an unknown node; 0: unknown nodes stay so *)
Known(m, x, y, K, on, extend, s) ==
  /\ ~Idle(m, y, on)
  /\ IF extend = 0 THEN m[x][y] = 0 ELSE 4 * s[1] >= extend * Total(K)
==============================================================================
