----------------------------- MODULE CompareCheck -----------------------------
EXTENDS Compare, Report
VARIABLES c
S(s) == {s[k] : k \in DOMAIN s}
Names == {"nomatch", "low", "intermediate", "high", "multi_match", "parent", "twin", "complex"}
Links(e) == {<<l[1], l[2], l[3]>> : l \in S(e.l)}
(* scores in hundredths of percent, of contours made of cells: compared without division *)
Frac(e, i, j) == Raw(e.a[i + 1], e.b[j + 1], IF e.minimal THEN "minimal" ELSE "union", 360)
(* links with the rank of the score instead of the score: 0 under invalid, 1 low, 2 intermediate, 3 high *)
Ge(s, t) == 10000 * s[1] >= t * s[2]
Ranked(e) == {<<i, j, LET s == Frac(e, i, j) IN IF s[1] = 0 \/ ~Ge(s, e.th.invalid) THEN 0 ELSE IF Ge(s, e.th.high) THEN 3 ELSE IF Ge(s, e.th.low) THEN 2 ELSE 1>> :
               i \in 0..(Len(e.a) - 1), j \in 0..(Len(e.b) - 1)}
RankTh == [invalid |-> 1, low |-> 2, high |-> 3]
GroupClauses(ok, g1, g2, L, th, n1, n2, aligned) ==
  LET G1 == Groups(L, th, 1, n1) G2 == Groups(L, th, 2, n2) K == Kept(L, th)
      one == ok /\ \A k \in Names : Cardinality(S(g1[k])) = Len(g1[k]) /\ Cardinality(S(g2[k])) = Len(g2[k]) IN
  [ no_exception |-> ok,
    once |-> ok => one,
    alone |-> ok => \A k \in {"nomatch", "low", "intermediate", "high"} : S(g1[k]) = G1[k] /\ S(g2[k]) = G2[k],
    couples |-> one /\ aligned => \A k \in {"low", "intermediate", "high"} : Len(g1[k]) = Len(g2[k]) /\ {<<g1[k][m], g2[k][m]>> : m \in DOMAIN g1[k]} = Alone(K, th, k),
    multi |-> ok => S(g1.multi_match) = G1.multi_match /\ S(g2.multi_match) = G2.multi_match,
    families |-> ok => S(g1.parent) = G1.parent /\ S(g2.parent) = G2.parent /\ S(g1.twin) = G1.twin /\ S(g2.twin) = G2.twin,
    complex |-> ok => S(g1.complex) = G1.complex /\ S(g2.complex) = G2.complex ]
CompareClauses(e) == GroupClauses(e.exc = "", e.g1, e.g2, IF e.kind = "groups" THEN Links(e) ELSE Ranked(e), IF e.kind = "groups" THEN e.th ELSE RankTh,
                        IF e.kind = "groups" THEN e.n1 ELSE Len(e.a), IF e.kind = "groups" THEN e.n2 ELSE Len(e.b), e.kind # "app") @@ [ source |-> e.source ]
(* e.a, e.b: contours; e.ta, e.tb: dates; e.id: trajectory of rows of the second; out: rows given *)
CloseClauses(e) == LET ok == e.exc = ""
    J == {<<i, j>> \in (DOMAIN e.a) \X (DOMAIN e.b) : e.ta[i] = e.tb[j] /\ Ge(Raw(e.a[i], e.b[j], "union", 360), e.min) /\ Raw(e.a[i], e.b[j], "union", 360)[1] > 0}
    T == CloseIds(e.id, J, e.nb) IN
  [ no_exception |-> ok,
    rows |-> ok => e.out = SelectSeq([k \in DOMAIN e.id |-> k], LAMBDA k : e.id[k] \in T),
    source |-> e.source ]
(* distances (m) of the vertices of each contour, expected radius *)
CircleClauses(e) == LET ok == e.exc = "" IN
  [ no_exception |-> ok,
    radius |-> ok => \A k \in DOMAIN e.d : e.d[k].set => \A m \in DOMAIN e.d[k].v : Abs(e.d[k].v[m] - e.d[k].r) <= e.d[k].tol + (e.d[k].r \div 500),
    around |-> ok => \A k \in DOMAIN e.d : e.d[k].set => e.d[k].closed /\ e.d[k].spread,
    others |-> ok => e.others ]
ShapeClauses(e) == LET ok == e.exc = "" all == [k \in DOMAIN e.p |-> UNION {Cells(e.p[k][m], 360) : m \in DOMAIN e.p[k]}] IN
  [ no_exception |-> ok,
    number |-> ok => Len(e.inside) = Len(e.p),
    union |-> (ok /\ Len(e.inside) = Len(e.p)) => \A k \in DOMAIN e.p : {<<v[1] % 360, v[2]>> : v \in S(e.inside[k])} = all[k],
    bounds |-> (ok /\ Len(e.inside) = Len(e.p)) => \A k \in DOMAIN e.p : {<<v[1] % 360, v[2]>> : v \in S(e.odd[k])} = all[k] ]
Clauses(e) == CASE e.kind \in {"groups", "compare", "app"} -> CompareClauses(e) [] e.kind = "close" -> CloseClauses(e) 
                [] e.kind = "circle" -> CircleClauses(e) [] e.kind = "shape" -> ShapeClauses(e)
TraceInit == c = 1
TraceNext == /\ c <= NCases
             /\ LET e == Cases[c] IN Report(c, 0, Clauses(e)) /\ Stat("kind_" \o e.kind, 1)
             /\ LastCase(c) /\ c' = c + 1
===============================================================================
