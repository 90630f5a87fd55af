------------------------------ MODULE Geometry ------------------------------
(* Contours made of whole unit cells: a contour is [x: first column, c: <<lo, hi>> of each
   column]; it encloses the cells <<x + k - 1, y>>, lo <= y < hi, on a circle of Turn columns.
   Areas, intersections and membership are then exact.                                   *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
Cells(p, turn) == UNION {{<<(p.x + k - 1) % turn, y>> : y \in p.c[k][1]..(p.c[k][2] - 1)} : k \in DOMAIN p.c}
Inter(p, q, turn) == Cardinality(Cells(p, turn) \cap Cells(q, turn))
Area(p) == FoldSet(LAMBDA k, s : s + p.c[k][2] - p.c[k][1], 0, DOMAIN p.c)
Mn(a, b) == IF a < b THEN a ELSE b
(* score as a fraction <<numerator, denominator>>; mode: "union" | "minimal" | "p1" *)
Raw(p, q, mode, turn) ==
  LET i == Inter(p, q, turn) IN
  <<i, CASE mode = "minimal" -> Mn(Area(p), Area(q)) [] mode = "p1" -> Area(q) [] OTHER -> Area(p) + Area(q) - i>>
(* m: minimal overlap in 1/997, never equal to a score *)
Enough(s, m) == 997 * s[1] >= m * s[2]
Inside99(p, q, turn) == 100 * Inter(p, q, turn) > 99 * Mn(Area(p), Area(q))
Score(p, q, mode, hybrid, m, turn) ==
  LET s == Raw(p, q, mode, turn) IN
  IF s[1] = 0 THEN <<0, 1>>
  ELSE IF Enough(s, m) \/ (hybrid /\ Inside99(p, q, turn)) THEN s ELSE <<0, 1>>
(* first contour which contains a cell, -1 when none; contours numbered from 0 *)
Which(P, cell, turn) == LET s == {k \in DOMAIN P : cell \in Cells(P[k], turn)} IN IF s = {} THEN -1 ELSE Min(s) - 1

(* integer polygons, given once without closing point *)
At(v, k) == v[((k - 1) % Len(v)) + 1]
Cross(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (c[1] - a[1]) * (b[2] - a[2])
Twice(v) == FoldSet(LAMBDA k, s : s + At(v, k)[1] * At(v, k + 1)[2] - At(v, k + 1)[1] * At(v, k)[2], 0, DOMAIN v)
Abs(x) == IF x < 0 THEN -x ELSE x
Turns(v) == {IF Cross(At(v, k), At(v, k + 1), At(v, k + 2)) > 0 THEN 1 ELSE IF Cross(At(v, k), At(v, k + 1), At(v, k + 2)) = 0 THEN 0 ELSE -1 : k \in DOMAIN v}
IsConvex(v) == Cardinality(Turns(v)) = 1
(* corners of the convex hull: ends of the edges which leave every other point on one side *)
HullEdges(v) == {e \in (DOMAIN v) \X (DOMAIN v) : e[1] # e[2] /\ \A k \in DOMAIN v : k \in {e[1], e[2]} \/ Cross(v[e[1]], v[e[2]], v[k]) > 0}
Hull(v) == {v[e[1]] : e \in HullEdges(v)}

(* lines: sequences of positions; a line is drawn with Gap between its pieces *)
Gap == <<"gap">>
(* Visvalingam: the position of smallest triangle goes first, one at a time; v is closed (last = first) *)
Tri(v, K, k) ==
  LET o == SetToSortSeq(K, LAMBDA a, b : a < b) n == Len(o) i == CHOOSE q \in 1..n : o[q] = k IN
  Abs(Cross(v[o[IF i = 1 THEN n ELSE i - 1]], v[k], v[o[IF i = n THEN 1 ELSE i + 1]]))
Lighter(v, K) == LET a == [k \in K |-> Tri(v, K, k)] m == Min({a[k] : k \in K}) IN {K \ {k} : k \in {k \in K : a[k] = m}}
RECURSIVE Lightened(_, _, _)
Lightened(v, Ks, n) == IF \E K \in Ks : Cardinality(K) <= n THEN Ks ELSE Lightened(v, UNION {Lighter(v, K) : K \in Ks}, n)
Drawn(v, K, size) == LET o == SetToSortSeq(K, LAMBDA a, b : a < b) IN [k \in 1..size |-> IF k <= Len(o) THEN v[o[k]] ELSE v[o[1]]]
(* pieces one after the other *)
RECURSIVE Flat(_)
Flat(ls) == IF ls = <<>> THEN <<>> ELSE IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o <<Gap>> \o Flat(Tail(ls))
(* a gap at each change of value *)
RECURSIVE Cut(_, _)
Cut(v, i) == IF Len(v) <= 1 THEN v ELSE <<v[1]>> \o (IF i[1] = i[2] THEN <<>> ELSE <<Gap>>) \o Cut(Tail(v), Tail(i))
(* positions closer than r to the last one kept are dropped *)
Far(a, b, r) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2]) > r * r
RECURSIVE Thin(_, _, _)
Thin(v, last, r) == IF v = <<>> THEN <<>> ELSE IF last = <<>> \/ Far(v[1], last, r) THEN <<v[1]>> \o Thin(Tail(v), v[1], r) ELSE Thin(Tail(v), last, r)
(* longitudes written from ref; when cut, a side which crosses the bound is drawn on both sides *)
Wrapped(x, ref, turn) == ((x - ref) % turn) + ref
RECURSIVE CutWrap(_, _, _)
CutWrap(v, ref, turn) ==
  IF v = <<>> THEN <<>> ELSE IF v[1] = Gap THEN <<Gap>> \o CutWrap(Tail(v), ref, turn) ELSE
  LET w(p) == <<Wrapped(p[1], ref, turn), p[2]>> IN
  IF Len(v) = 1 \/ v[2] = Gap THEN <<w(v[1])>> \o CutWrap(Tail(v), ref, turn) ELSE
  LET a == w(v[1]) b == w(v[2]) d == v[2][1] - v[1][1] IN
  <<a>> \o (IF b[1] - a[1] = d THEN <<>> ELSE <<<<a[1] + d, b[2]>>, Gap, <<b[1] - d, a[2]>>>>) \o CutWrap(Tail(v), ref, turn)
=============================================================================
