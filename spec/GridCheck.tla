------------------------------ MODULE GridCheck ------------------------------
EXTENDS Grid, Report
VARIABLES c
OK(e) == e.exc = ""
InterpClauses(e) ==
  [ bilinear |-> OK(e) => /\ Len(e.bil) \in {0, Len(e.pts)}
                          /\ \A k \in DOMAIN e.bil : e.bil[k] \in Bilinear(e.g, e.f, e.pts[k][1], e.pts[k][2]),
    nearest  |-> OK(e) => /\ Len(e.near) \in {0, Len(e.pts)}
                          /\ \A k \in DOMAIN e.near : e.near[k] \in Nearest(e.g, e.f, e.pts[k][1], e.pts[k][2]) ]
(* quarter q of the way from one grid to the next *)
Blend(A, B, q) == {IF a = NaN \/ b = NaN THEN NaN ELSE (4 - q) * a + q * b : a \in A, b \in B}
TInterpClauses(e) ==
  [ in_time |-> OK(e) => \A k \in DOMAIN e.pts :
       LET v == IF e.near THEN Blend(Nearest(e.g, e.f, e.pts[k][1], e.pts[k][2]), Nearest(e.g2, e.f2, e.pts[k][1], e.pts[k][2]), e.q)
                ELSE Blend(Bilinear(e.g, e.f, e.pts[k][1], e.pts[k][2]), Bilinear(e.g2, e.f2, e.pts[k][1], e.pts[k][2]), e.q)
       IN e.out[k] \in v ]
Line(e, k) == IF e.vertical THEN [i \in 1..e.g.ny |-> e.f[k][i]] ELSE [i \in 1..e.g.nx |-> e.f[i][k]]
MLine(e, k) == IF e.vertical THEN [i \in 1..e.g.ny |-> e.g.m[k][i]] ELSE [i \in 1..e.g.nx |-> e.g.m[i][k]]
DiffClauses(e) ==
  [ derivative |-> OK(e) => \A k \in 1..(IF e.vertical THEN e.g.nx ELSE e.g.ny) :
       LET h == Line(e, k) m == MLine(e, k) circ == (e.g.circ /\ ~e.vertical) IN
       \A i \in DOMAIN h :
          LET want == Diff840(h, m, circ, e.hw, i) got == IF e.vertical THEN e.out[k][i] ELSE e.out[i][k] IN
          IF want = NaN \/ got = NaN THEN want = got ELSE Abs(want - got) <= e.tol ]
UV(e) ==
  [ geostrophy |-> OK(e) => \A i \in 1..e.g.nx, j \in 1..e.g.ny :
       LET hx == [k \in 1..e.g.nx |-> e.f[k][j]] mx == [k \in 1..e.g.nx |-> e.g.m[k][j]]
           a == Diff840(hx, mx, e.g.circ, e.hw, i)
           b == Diff840(e.f[i], e.g.m[i], FALSE, e.hw, j)
       IN /\ IF a = NaN \/ e.v[i][j] = NaN THEN a = e.v[i][j] ELSE Abs(a - e.v[i][j]) <= e.tol
          /\ IF b = NaN \/ e.u[i][j] = NaN THEN b = e.u[i][j] ELSE Abs(e.u[i][j] + b) <= e.tol ]
(* one record by release of the positions: p -> q, by e.nb steps from the time e.t *)
Grids(e, k, l) ==
  [ g |-> [nx |-> e.nx, ny |-> e.ny, circ |-> e.circ,
           m |-> [i \in 1..e.nx |-> [j \in 1..e.ny |-> IF e.ms[k][i][j] = 0 /\ e.ms[l][i][j] = 0 THEN 0 ELSE 1]]],
    sgn |-> IF e.back THEN -1 ELSE 1, u0 |-> e.us[k], v0 |-> e.vs[k], u1 |-> e.us[l], v1 |-> e.vs[l] ]
Step(e, t, p) ==
  IF e.T = <<>> THEN LET G == Grids(e, 1, 1) IN IF e.rk4 THEN Rk4(G, 0, 1, p) ELSE Euler(G, 0, 1, p)
  ELSE LET b == CHOOSE b \in Bracket(e.T, t, e.back) : TRUE
           G == Grids(e, b[1], b[2])
           n2 == 2 * Abs(t - e.T[b[1]]) d2 == 2 * Abs(e.T[b[2]] - e.T[b[1]])
       IN IF e.rk4 THEN Rk4(G, n2, d2, p) ELSE Euler(G, n2, d2, p)
RECURSIVE Go(_, _, _, _)
Go(e, t, p, n) ==
  IF n = 0 THEN <<"in", p[1], p[2]>> ELSE
  LET s == Step(e, t, p) IN
  IF s[1] # "in" THEN s
  ELSE Go(e, IF e.back THEN t - 1 ELSE t + 1, <<s[2], s[3]>>, n - 1)
EndOf(e) == IF e.back THEN e.t - e.nb ELSE e.t + e.nb
Known(e) == e.T = <<>> \/ (EndOf(e) >= e.T[1] /\ EndOf(e) <= e.T[Len(e.T)])
Moved(e, k) ==
  LET p == e.p[k] q == e.q[k] IN
  IF p = <<>> THEN q = <<>>
  ELSE LET s == Go(e, e.t, p, e.nb) IN
       CASE s[1] = "edge" -> TRUE
         [] s[1] = "out" -> q = <<>>
         [] OTHER -> q # <<>> /\ Abs(q[1] - s[2]) <= 15 * e.nb /\ Abs(q[2] - s[3]) <= 15 * e.nb
MoveClauses(e) ==
  [ moved    |-> (OK(e) /\ ~e.stop /\ Known(e)) => Len(e.q) = Len(e.p) /\ \A k \in DOMAIN e.p : Moved(e, k),
    released |-> (OK(e) /\ Known(e)) => ~e.stop,
    (* no current is known there *)
    stopped  |-> (OK(e) /\ ~Known(e)) => e.stop,
    clock    |-> (OK(e) /\ ~e.stop /\ e.T # <<>>) => e.tout = EndOf(e) ]
(* lines of n positions, the last ones first *)
FilClauses(e) ==
  [ heads |-> OK(e) => \A k \in DOMAIN e.now : e.now[k][1] = e.head[k] /\ e.now[k][Len(e.now[k])] = <<>>,
    (* lines are stored with less digits *)
    tails |-> OK(e) => \A k \in DOMAIN e.now : \A i \in 2..(Len(e.now[k]) - 1) :
                LET a == e.now[k][i] b == e.before[k][i - 1] IN
                IF a = <<>> \/ b = <<>> THEN a = b ELSE Abs(a[1] - b[1]) <= 1 /\ Abs(a[2] - b[2]) <= 1 ]
PixelClauses(e) ==
  [ pixels |-> OK(e) => /\ Cardinality(ToSet(e.out)) = Len(e.out)
                        /\ ToSet(e.out) = Pixels(e.g, e.p) ]
TraceInit == c = 1
TraceNext == /\ c <= NCases
             /\ LET e == Cases[c] IN
                  /\ Report(c, 0, [no_exception |-> OK(e)])
                  /\ Report(c, 0, CASE e.kind = "interp" -> InterpClauses(e) [] e.kind = "tinterp" -> TInterpClauses(e)
                                    [] e.kind = "diff" -> DiffClauses(e) [] e.kind = "uv" -> UV(e) [] e.kind = "move" -> MoveClauses(e)
                                    [] e.kind = "fil" -> FilClauses(e) [] OTHER -> PixelClauses(e))
                  /\ Stat("kind_" \o e.kind, 1)
             /\ LastCase(c) /\ c' = c + 1
=============================================================================
