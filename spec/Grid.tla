-------------------------------- MODULE Grid --------------------------------
(* Regular grids: columns 0..nx-1 (a circle when circ), rows 0..ny-1, a value and a mask at each
   node. g: [nx, ny, circ, m: <<columns of 0/1>>]; a field is <<columns of integers>>.         *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
Wrap(g, i) == IF g.circ THEN i % g.nx ELSE i
InX(g, i) == g.circ \/ (0 <= i /\ i < g.nx)
InY(g, j) == 0 <= j /\ j < g.ny
Sea(g, i, j) == InX(g, i) /\ InY(g, j) /\ g.m[Wrap(g, i) + 1][j + 1] = 0
V(g, f, i, j) == f[Wrap(g, i) + 1][j + 1]
Corners(i, j) == {<<i, j>>, <<i + 1, j>>, <<i, j + 1>>, <<i + 1, j + 1>>}
Cell(g, i, j) == \A w \in Corners(i, j) : Sea(g, w[1], w[2])
Abs(x) == IF x < 0 THEN -x ELSE x
Mx(a, b) == IF a > b THEN a ELSE b
NaN == -999999999

(* ---- interpolation, positions in 1/16 of a cell, result in 1/256 ---- *)
Weight(w, i, j, fx, fy) == (IF w[1] = i THEN 16 - fx ELSE fx) * (IF w[2] = j THEN 16 - fy ELSE fy)
Bil(g, f, px, py) ==
  LET i == px \div 16 j == py \div 16 fx == px % 16 fy == py % 16 IN
  FoldSet(LAMBDA w, s : s + (IF Weight(w, i, j, fx, fy) = 0 THEN 0 ELSE V(g, f, w[1], w[2]) * Weight(w, i, j, fx, fy)), 0, Corners(i, j))
(* values allowed: a corner which is missing but does not count leaves the choice *)
Bilinear(g, f, px, py) ==
  LET i == px \div 16 j == py \div 16
      need == {w \in Corners(i, j) : Weight(w, i, j, px % 16, py % 16) > 0}
  IN IF Cell(g, i, j) THEN {Bil(g, f, px, py)}
     ELSE IF \A w \in need : Sea(g, w[1], w[2]) THEN {Bil(g, f, px, py), NaN} ELSE {NaN}
Nearest(g, f, px, py) ==
  LET i == (px + 8) \div 16 j == (py + 8) \div 16 IN IF Sea(g, i, j) THEN {256 * V(g, f, i, j)} ELSE {NaN}

(* ---- derivative along a row: h: values, m: mask, positions from 1 ---- *)
RowOk(m, circ, i) == (circ \/ (1 <= i /\ i <= Len(m))) /\ m[((i - 1) % Len(m)) + 1] = 0
RowV(h, i) == h[((i - 1) % Len(h)) + 1]
(* widest centred stencil which has all its values *)
Width(m, circ, hw, i) ==
  Max({0} \cup {w \in 1..hw : \A k \in 1..w : RowOk(m, circ, i + k) /\ RowOk(m, circ, i - k)})
(* 840 times the derivative by step, NaN when it cannot be known *)
Diff840(h, m, circ, hw, i) ==
  LET d(k) == RowV(h, i + k) - RowV(h, i - k)
      w == Width(m, circ, hw, i)
  IN CASE ~RowOk(m, circ, i) -> NaN
       [] w = 4 -> ((672 * d(1) - 168 * d(2)) + 32 * d(3)) - 3 * d(4)
       [] w = 3 -> 14 * ((45 * d(1) - 9 * d(2)) + d(3))
       [] w = 2 -> 70 * (8 * d(1) - d(2))
       [] w = 1 -> 420 * d(1)
       [] RowOk(m, circ, i + 1) -> 840 * (RowV(h, i + 1) - RowV(h, i))
       [] RowOk(m, circ, i - 1) -> 840 * (RowV(h, i) - RowV(h, i - 1))
       [] OTHER -> NaN

(* ---- advection, positions and speeds (by step) in 1/U of a cell ---- *)
U == 10000
Lerp(a, b, f) == a + (((b - a) * f) \div U)
Speed(g, f, x, y) ==
  LET i == x \div U j == y \div U IN
  Lerp(Lerp(V(g, f, i, j), V(g, f, i + 1, j), x % U), Lerp(V(g, f, i, j + 1), V(g, f, i + 1, j + 1), x % U), y % U)
(* the rounding of the specification cannot tell on which side of the side of a cell a position is *)
Slack == 60
Reach(x) == {(x - Slack) \div U, (x + Slack) \div U}
State(g, x, y) ==
  LET C == {Cell(g, i, j) : i \in Reach(x), j \in Reach(y)} IN
  IF C = {TRUE} THEN "in" ELSE IF C = {FALSE} THEN "out" ELSE "edge"
(* currents at a time: two grids (one mask for both), a fraction n/d of the way between them and the way time goes (sgn) *)
Between(a, b, n, d) == a + (((b - a) * n) \div d)
Flow(e, n, d, x, y) ==
  <<e.sgn * Between(Speed(e.g, e.u0, x, y), Speed(e.g, e.u1, x, y), n, d), e.sgn * Between(Speed(e.g, e.v0, x, y), Speed(e.g, e.v1, x, y), n, d)>>
Euler(e, n, d, p) ==
  LET s == State(e.g, p[1], p[2]) IN
  IF s # "in" THEN <<s, 0, 0>> ELSE LET f == Flow(e, n, d, p[1], p[2]) IN <<"in", p[1] + f[1], p[2] + f[2]>>
(* n2: fraction in halves of step: n2/d2, (n2+1)/d2, (n2+2)/d2 *)
Rk4(e, n2, d2, p) ==
  LET s1 == State(e.g, p[1], p[2]) IN IF s1 # "in" THEN <<s1, 0, 0>> ELSE
  LET k1 == Flow(e, n2, d2, p[1], p[2])
      p2 == <<p[1] + (k1[1] \div 2), p[2] + (k1[2] \div 2)>>
      s2 == State(e.g, p2[1], p2[2]) IN IF s2 # "in" THEN <<s2, 0, 0>> ELSE
  LET k2 == Flow(e, n2 + 1, d2, p2[1], p2[2])
      p3 == <<p[1] + (k2[1] \div 2), p[2] + (k2[2] \div 2)>>
      s3 == State(e.g, p3[1], p3[2]) IN IF s3 # "in" THEN <<s3, 0, 0>> ELSE
  LET k3 == Flow(e, n2 + 1, d2, p3[1], p3[2])
      p4 == <<p[1] + k3[1], p[2] + k3[2]>>
      s4 == State(e.g, p4[1], p4[2]) IN IF s4 # "in" THEN <<s4, 0, 0>> ELSE
  LET k4 == Flow(e, n2 + 2, d2, p4[1], p4[2])
      q(c) == p[c] + ((k1[c] + 2 * k2[c] + 2 * k3[c] + k4[c]) \div 6)
  IN <<"in", q(1), q(2)>>

(* ---- the two grids around a time: positions in T (increasing), from the time t on, going forward or backward ---- *)
Bracket(T, t, back) ==
  IF back THEN {<<k + 1, k>> : k \in {k \in 1..(Len(T) - 1) : T[k] < t /\ t <= T[k + 1]}}
  ELSE {<<k, k + 1>> : k \in {k \in 1..(Len(T) - 1) : T[k] <= t /\ t < T[k + 1]}}
(* ---- pixels of cell contours: p: [x, c] as in Geometry, in whole steps; a pixel is a node of the grid ---- *)
PolyHas(p, i, j) == LET k == i - p.x + 1 IN k \in DOMAIN p.c /\ p.c[k][1] <= j /\ j < p.c[k][2]
Pixels(g, p) ==
  {w \in (0..(g.nx - 1)) \X (0..(g.ny - 1)) :
     IF g.circ THEN \E t \in -2..2 : PolyHas(p, w[1] + t * g.nx, w[2]) ELSE PolyHas(p, w[1], w[2])}
=============================================================================
