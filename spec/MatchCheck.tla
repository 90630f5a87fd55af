----------------------------- MODULE MatchCheck -----------------------------
(* Recorded associations of the three trackers against Matching.                   *)
EXTENDS Matching, Report
VARIABLES c
Tol == 50000

Sq(x) == x * x
Div(a, b) == a \div b
(* default tracker: cost^2 in 1e-8, distance in 1e-4 of 125 km *)
DefCost(C, i, j) ==
  LET da == Div(10000 * (C.ai[i] - C.ao[j]), C.ai[i])
      dr == Div(10000 * (C.ri[i] - C.ro[j]), C.ri[i])
  IN Sq(da) + Sq(dr) + Sq(C.d[i][j])
DefaultM(C) ==
  [na |-> C.na, nb |-> C.nb,
   adm |-> [i \in 1..C.na |-> [j \in 1..C.nb |-> C.d[i][j] < 10000]],
   cost |-> [i \in 1..C.na |-> [j \in 1..C.nb |-> IF C.d[i][j] < 10000 THEN DefCost(C, i, j) ELSE 0]]]

(* overlap tracker: rectangles in quarters of degree, on a circle of 1440 *)
Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b
Ov(a0, a1, b0, b1) == Mx(0, Mn(a1, b1) - Mx(a0, b0))
LonOv(r, q) == Ov(r[1], r[2], q[1], q[2]) + Ov(r[1], r[2], q[1] + 1440, q[2] + 1440)
               + Ov(r[1], r[2], q[1] - 1440, q[2] - 1440)
Area(r) == (r[2] - r[1]) * (r[4] - r[3])
Inter(r, q) == LonOv(r, q) * Ov(r[3], r[4], q[3], q[4])
Union(r, q) == Area(r) + Area(q) - Inter(r, q)
(* order on scores by cross multiplication, as an integer rank is not needed *)
ScoreGeq(a, b) == a[1] * b[2] >= b[1] * a[2]
AreaAdm(C, i, j) == Inter(C.rin[i], C.rout[j]) * C.cd > C.cn * Union(C.rin[i], C.rout[j])
Score(C, p) == <<Inter(C.rin[p[1] + 1], C.rout[p[2] + 1]), Union(C.rin[p[1] + 1], C.rout[p[2] + 1])>>
AreaM(C) == [na |-> C.na, nb |-> C.nb,
             adm |-> [i \in 1..C.na |-> [j \in 1..C.nb |-> AreaAdm(C, i, j)]],
             cost |-> [i \in 1..C.na |-> [j \in 1..C.nb |-> 0]]]
AreaNoBlocking(C, m, L) ==
  \A i \in I(m) : \A j \in J(m) : (Adm(m, i, j) /\ <<i, j>> \notin L) =>
     \E q \in L : (q[1] = i \/ q[2] = j) /\ ScoreGeq(Score(C, q), Score(C, <<i, j>>))

MaskM(C) == [na |-> C.na, nb |-> C.nb, adm |-> C.adm, cost |-> C.cost]

Abs(x) == IF x < 0 THEN -x ELSE x
CostOK(C, m, k) ==
  LET p == C.links[k] IN
  CASE C.kind = "default" -> Abs(Sq(p[3]) - Cost(m, p[1], p[2])) <= 150000
    [] C.kind = "area" -> LET s == Score(C, p) IN Abs(10000 * s[1] - (10000 - p[3]) * s[2]) <= 2 * s[2]
    [] OTHER -> TRUE

M(C) == CASE C.kind = "default" -> DefaultM(C)
          [] C.kind = "area" -> AreaM(C)
          [] OTHER -> MaskM(C)
Clauses(C) ==
  LET m == M(C)
      L == {<<C.links[k][1], C.links[k][2]>> : k \in DOMAIN C.links}
      ok == InRange(m, L)
  IN
  [ no_exception |-> C.exc = "",
    in_range     |-> ok,
    one_to_one   |-> OneToOne(L) /\ Cardinality(L) = Len(C.links),
    admissible   |-> ok => Admissible(m, L),
    cost_value   |-> ok => \A k \in DOMAIN C.links : CostOK(C, m, k),
    all_placed   |-> (ok /\ C.exc = "" /\ C.kind # "chelton") => Maximal(m, L),
    cheapest     |-> (ok /\ C.exc = "") =>
                     CASE C.kind = "area" -> AreaNoBlocking(C, m, L)
                       [] C.kind = "chelton" -> CheltonOK(m, C.amp, L, 0)
                       [] C.kind = "default" -> NoBlocking(m, L, Tol)
                       [] OTHER -> NoBlocking(m, L, 0) ]

TraceInit == c = 1
TraceNext == /\ c <= NCases
             /\ Report(c, 0, Clauses(Cases[c]))
             /\ Stat("links", Len(Cases[c].links)) /\ Stat("cases_" \o Cases[c].kind, 1)
             /\ Stat("conflicts", IF Cases[c].exc # "" THEN 0 ELSE
                   LET m == M(Cases[c]) IN Cardinality({i \in I(m) : Cardinality({j \in J(m) : Adm(m, i, j)}) > 1}))
             /\ LastCase(c) /\ c' = c + 1
=============================================================================
