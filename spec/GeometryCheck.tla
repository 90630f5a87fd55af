--------------------------- MODULE GeometryCheck ---------------------------
EXTENDS Geometry, Report
VARIABLES c
Near(v, s) == Abs(v * s[2] - 10000 * s[1]) <= s[2]
(* couples kept by match: positions from 0 in the two lists given *)
OK(e) == e.exc = ""
Turn == 360
ScoreOf(e, i, j) == Score(e.a[i], e.b[j], e.mode, e.hybrid, e.min, Turn)
Couples(e) == {<<i, j>> \in (DOMAIN e.a) \X (DOMAIN e.b) : Enough(ScoreOf(e, i, j), e.cmin)}
Got(e) == {<<e.i[k] + 1, e.j[k] + 1>> : k \in DOMAIN e.i}
MatchClauses(e) ==
  [ in_range  |-> OK(e) => Got(e) \subseteq ((DOMAIN e.a) \X (DOMAIN e.b)) /\ Cardinality(Got(e)) = Len(e.i),
    couples   |-> OK(e) => IF e.cmin = 0 THEN {w \in (DOMAIN e.a) \X (DOMAIN e.b) : ScoreOf(e, w[1], w[2])[1] > 0} \subseteq Got(e) ELSE Got(e) = Couples(e),
    scores    |-> OK(e) => \A k \in DOMAIN e.i : Near(e.s[k], ScoreOf(e, e.i[k] + 1, e.j[k] + 1)),
    re_referenced |-> OK(e) => e.rj = [k \in DOMAIN e.j |-> e.keep[e.j[k] + 1]] ]
PairClauses(e) ==
  [ pair_scores |-> OK(e) => /\ Len(e.s) = Len(e.a)
                             /\ \A k \in DOMAIN e.a : Near(e.s[k], Score(e.a[k], e.b[k], e.mode, e.hybrid, e.min, Turn)) ]
Dist(a, b) == LET d == (a - b) % 3600 IN IF d > 1800 THEN 3600 - d ELSE d
CenterClauses(e) ==
  [ centers |-> OK(e) => {<<e.i[k] + 1, e.j[k] + 1>> : k \in DOMAIN e.i} =
        {<<i, j>> \in (DOMAIN e.pa) \X (DOMAIN e.pb) : 2 * Dist(e.pa[i][1], e.pb[j][1]) < e.delta /\ 2 * Abs(e.pa[i][2] - e.pb[j][2]) < e.delta} ]
InsideClauses(e) ==
  [ contains  |-> OK(e) => e.out = [k \in DOMAIN e.pts |-> IF e.pts[k][3] = 1 THEN -1 ELSE Which(e.a, <<e.pts[k][1] % Turn, e.pts[k][2]>>, Turn)],
    inside    |-> OK(e) => e.ins = <<-1>> \/ e.ins = [k \in DOMAIN e.pts |-> IF Which(e.a, <<e.pts[k][1] % Turn, e.pts[k][2]>>, Turn) = -1 THEN 0 ELSE 1],
    polygons  |-> OK(e) => e.mpo = <<-1>> \/ e.mpo = [k \in DOMAIN e.pts |-> IF Which(e.a, <<e.pts[k][1] % Turn, e.pts[k][2]>>, Turn) = -1 THEN 0 ELSE 1] ]
(* particles: d by unit, position k/d; cell of a position: contours are shifted by a quarter *)
CellOf(k, d) == IF d = 1 THEN k - 1 ELSE (2 * k - 1) \div 4
AllParticles(e) ==
  UNION {LET p == e.a[n] lo == Min({p.c[k][1] : k \in DOMAIN p.c}) hi == Max({p.c[k][2] : k \in DOMAIN p.c}) IN
         {<<x, y, n - 1>> : x \in (p.x * e.d)..((p.x + Len(p.c) + 1) * e.d), y \in (lo * e.d)..((hi + 1) * e.d)} : n \in DOMAIN e.a}
Holds(e, w) == LET p == e.a[w[3] + 1] k == CellOf(w[1], e.d) - p.x + 1 y == CellOf(w[2], e.d) IN
               k \in DOMAIN p.c /\ p.c[k][1] <= y /\ y < p.c[k][2]
ParticleClauses(e) ==
  [ particles |-> OK(e) => /\ Cardinality(ToSet(e.part)) = Len(e.part)
                           /\ ToSet(e.part) = {w \in AllParticles(e) : Holds(e, w)} ]
ContainClauses(e) ==
  [ contains_poly |-> OK(e) => e.flag = (\A k \in DOMAIN e.pts : <<e.pts[k][1] % Turn, e.pts[k][2]>> \in Cells(e.a[1], Turn)) ]
ShapeClauses(e) ==
  [ area   |-> OK(e) => e.area = Abs(Twice(e.v)),
    convex |-> (OK(e) /\ 0 \notin Turns(e.v)) => e.convex = IsConvex(e.v),
    hull   |-> OK(e) => IF e.hull = <<>> THEN TRUE ELSE ToSet(e.hull) = Hull(e.v) /\ Len(e.hull) = Cardinality(ToSet(e.hull)) ]
G(q) == [k \in DOMAIN q |-> IF q[k] = <<>> THEN Gap ELSE q[k]]
(* positions along a rectangular line (which may cross itself), in units of 1/1000 of a cell *)
Along(v, p) ==
  LET Len1(j) == 1000 * (Abs(v[j + 1][1] - v[j][1]) + Abs(v[j + 1][2] - v[j][2]))
      Start[j \in 1..Len(v)] == IF j = 1 THEN 0 ELSE Start[j - 1] + Len1(j - 1)
      On(j) == LET a == v[j] b == v[j + 1] IN
               /\ Abs(p[1] - 1000 * a[1]) + Abs(p[1] - 1000 * b[1]) + Abs(p[2] - 1000 * a[2]) + Abs(p[2] - 1000 * b[2]) <= Len1(j) + 4
      S == {Start[k] + Abs(p[1] - 1000 * v[k][1]) + Abs(p[2] - 1000 * v[k][2]) : k \in {k \in 1..(Len(v) - 1) : On(k)}}
  IN S
RECURSIVE Follow(_, _, _, _, _)
(* each position is on the line, after the previous one, at a step which is nearly the same *)
Follow(v, q, from, lo, hi) ==
  IF q = <<>> THEN TRUE ELSE \E t \in Along(v, q[1]) : t - from >= lo /\ t - from <= hi /\ Follow(v, Tail(q), t, lo, hi)
Total(v) == FoldSet(LAMBDA k, s : s + 1000 * (Abs(v[k + 1][1] - v[k][1]) + Abs(v[k + 1][2] - v[k][2])), 0, 1..(Len(v) - 1))
LineClauses(e) ==
  [ visvalingam |-> (OK(e) /\ e.what = "visvalingam") => e.out \in {Drawn(e.v, K, e.n) : K \in Lightened(e.v, {DOMAIN e.v}, e.n - 1)},
    flat     |-> (OK(e) /\ e.what = "flat") => G(e.out) = Flat(e.ls),
    cut_at   |-> (OK(e) /\ e.what = "split") => G(e.out) = Cut(e.v, e.i),
    thinned  |-> (OK(e) /\ e.what = "simplify") => G(e.out) = Flat([k \in DOMAIN e.ls |-> Thin(e.ls[k], <<>>, e.n)]),
    wrapped  |-> (OK(e) /\ e.what = "wrap") => G(e.out) = [k \in DOMAIN e.v |-> IF e.v[k] = <<>> THEN Gap ELSE <<Wrapped(e.v[k][1], e.n, 3600), e.v[k][2]>>],
    cut_wrapped |-> (OK(e) /\ e.what = "cutwrap") => G(e.out) = CutWrap(G(e.v), e.n, 3600),
    resampled |-> (OK(e) /\ e.what = "resample") =>
       /\ Len(e.out) = e.n
       /\ e.out[1] = <<1000 * e.v[1][1], 1000 * e.v[1][2]>> /\ e.out[e.n] = <<1000 * Last(e.v)[1], 1000 * Last(e.v)[2]>>
       /\ LET t == Total(e.v) \div (e.n - 1) IN Follow(e.v, Tail(e.out), 0, ((t * 97) \div 100) - 6, ((t * 103) \div 100) + 6),
    local    |-> (OK(e) /\ e.what = "local") =>
       \A k \in DOMAIN e.v :
          LET v == e.v[k] IN
          /\ Abs(e.back[k][1] - v[1]) <= 1 /\ Abs(e.back[k][2] - v[2]) <= 1
          (* metres: on the meridian of the centre a degree is 111194.9 m *)
          /\ IF v[1] = 0 THEN Abs(e.out[k][1]) <= 2 /\ Abs(1000 * e.out[k][2] - 1111949 * v[2]) <= 2000 + Abs(v[2])
             ELSE (v[1] > 0) = (e.out[k][1] > 0) ]
TraceInit == c = 1
TraceNext == /\ c <= NCases
             /\ LET e == Cases[c] IN
                  /\ Report(c, 0, [no_exception |-> OK(e)])
                  /\ Report(c, 0, CASE e.kind = "match" -> MatchClauses(e) [] e.kind = "pairs" -> PairClauses(e) [] e.kind = "centers" -> CenterClauses(e)
                                    [] e.kind = "inside" -> InsideClauses(e) [] e.kind = "particles" -> ParticleClauses(e)
                                    [] e.kind = "contain" -> ContainClauses(e) [] e.kind = "line" -> LineClauses(e) [] OTHER -> ShapeClauses(e))
                  /\ Stat("kind_" \o e.kind, 1)
             /\ LastCase(c) /\ c' = c + 1
=============================================================================
