------------------------------- MODULE GridObs -------------------------------
(* Observations seen on a grid: how many contours hold each node, what the boxes of a grid hold, what the nodes of a contour hold.
   Contours are made of unit cells shifted by a quarter (Geometry); nodes [a, s, n]: first, step, number, in halves of degree;
   boxes the same with positions in eighths of degree.                                                                    *)
EXTENDS Geometry
Node(ax, i) == ax.a + (i - 1) * ax.s
(* cell which holds a node *)
Cell(h) == ((2 * h) - 1) \div 4
Column(p, col, turn) == {k \in DOMAIN p.c : (p.x + k - 1) % turn = col % turn}
Holds(p, hx, hy, turn) == \E k \in Column(p, Cell(hx), turn) : Cell(hy) >= p.c[k][1] /\ Cell(hy) < p.c[k][2]
(* nodes of a contour; only those near it are looked at *)
Near(p, ax, turn) == {i \in 1..ax.n : Column(p, Cell(Node(ax, i)), turn) # {}}
Nodes(p, ax, ay, turn) == {q \in Near(p, ax, turn) \X (1..ay.n) : Holds(p, Node(ax, q[1]), Node(ay, q[2]), turn)}
Counted(P, ax, ay, turn) ==
  LET N == [k \in DOMAIN P |-> Nodes(P[k], ax, ay, turn)] all == UNION {N[k] : k \in DOMAIN P} IN
  {<<q[1], q[2], Cardinality({k \in DOMAIN P : q \in N[k]})>> : q \in all}
(* box of a position, from 1; 0 when out; closed: the end of the last box is in it *)
Box(v, ax, turn, closed) ==
  LET d == IF turn = 0 THEN v - ax.a ELSE (v - ax.a) % turn b == d \div ax.s IN
  IF d < 0 THEN 0 ELSE IF b < ax.n THEN b + 1 ELSE IF closed /\ d = ax.n * ax.s THEN ax.n ELSE 0
Place(o, ax, ay, turn, closed) == <<Box(o[1], ax, turn, closed), Box(o[2], ay, 0, closed)>>
InSome(b) == b[1] > 0 /\ b[2] > 0
Boxes(O, ax, ay, turn, closed) ==
  LET B == [k \in DOMAIN O |-> Place(O[k], ax, ay, turn, closed)] IN
  [b \in {B[k] : k \in {k \in DOMAIN O : InSome(B[k])}} |-> {k \in DOMAIN O : B[k] = b}]
Sum(S, f) == FoldSet(LAMBDA k, s : s + f[k], 0, S)
(* percentile (0, 25, .. 100) of a bag of values, times 4 *)
Percent(O, K, p) ==
  LET v == SortSeq(SetToSeq({<<O[k][3], k>> : k \in K}), LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
      r == (Len(v) - 1) * (p \div 25) i == (r \div 4) + 1 f == r % 4 IN
  IF f = 0 THEN 4 * v[i][1] ELSE ((4 - f) * v[i][1]) + (f * v[i + 1][1])
=============================================================================
