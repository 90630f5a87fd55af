------------------------------ MODULE AlongCheck ------------------------------
EXTENDS Along, Report
VARIABLES c
(* e.R: rows [g, t, y, z, n, p]; e.net: relatives are looked at *)
Y(e) == [k \in DOMAIN e.R |-> e.R[k].y]
MissingClauses(e) == LET ok == e.exc = "" IN
  [ no_exception |-> ok,
    places |-> ok => e.out = Missing(e.R, e.dt2) ]
(* e.out: rows [g, v, t (thousandths), y (thousandths), n, p] *)
VirtualClauses(e) == LET ok == e.exc = "" D == Diffs(e.R) L == IF D = <<>> THEN Filled(e.R, 2000000) ELSE Filled(e.R, Median2(D)) same == ok /\ Len(e.out) = Len(L)
    R == e.R IN
  [ no_exception |-> ok,
    number |-> ok => same,
    order |-> same => \A k \in DOMAIN L : e.out[k].g = R[L[k][1]].g /\ e.out[k].v = (IF L[k][2] > 0 THEN 1 ELSE R[L[k][1]].v),
    kept |-> same => \A k \in DOMAIN L : L[k][2] = 0 => e.out[k].t = 1000 * R[L[k][1]].t /\ e.out[k].y = 1000 * R[L[k][1]].y,
    interpolated |-> same => \A k \in DOMAIN L : L[k][2] > 0 => LET i == L[k][1] n == L[k][3] IN
       /\ Abs((e.out[k].t * (n + 1)) - (1000 * Between(R[i].t, R[i + 1].t, L[k][2], n))) <= n + 1
       /\ Abs((e.out[k].y * (n + 1)) - (1000 * Between(R[i].y, R[i + 1].y, L[k][2], n))) <= n + 1,
    relatives |-> same /\ e.net => \A k \in DOMAIN L : (R[L[k][1]].g # 0) => e.out[k].n = NextIn(R, L, k) /\ e.out[k].p = PreviousIn(R, L, k),
    source |-> e.source ]
(* e.m: rows to fill; e.out thousandths *)
FillClauses(e) == LET ok == e.exc = "" M == {e.m[k] : k \in DOMAIN e.m} IN
  [ no_exception |-> ok,
    kept |-> ok => \A i \in DOMAIN e.R \ M : e.out[i] = 1000 * e.R[i].y,
    filled |-> ok => \A i \in M : LET a == Max({j \in 0..(i - 1) : j \notin M}) b == Min({j \in (i + 1)..(Len(e.R) + 1) : j \notin M}) n == b - a - 1 IN
       Abs((e.out[i] * (n + 1)) - (1000 * Between(e.R[a].y, e.R[b].y, i - a, n))) <= n + 1,
    others |-> e.others ]
FilterClauses(e) == LET ok == e.exc = "" same == ok /\ Len(e.out) = Len(e.R) J == {i \in DOMAIN e.R : e.R[i].g # 0} y == Y(e) IN
  [ no_exception |-> ok,
    number |-> ok => same,
    smoothed |-> same => CASE
       e.op = "median" -> \A i \in J : Abs((2 * e.out[i]) - (100 * Smooth2(e.R, i, e.hw, y))) <= 2
       [] e.op = "loess" -> \A i \in J : LET s == Loess(e.R, i, e.hw, y) IN Abs((e.out[i] * s[1]) - (100 * s[2])) <= 2 * s[1]
       [] e.op = "position" -> LET m == [i \in DOMAIN e.R |-> IF i \in J THEN Smooth2(e.R, i, e.hw, y) ELSE 0] IN
            \A i \in J : LET s == Loess(e.R, i, e.hw2, m) IN Abs((e.out[i] * s[1]) - (50 * s[2])) <= 2 * s[1],
    others |-> e.others ]
(* longitudes in hundredths of degree: before (x, lm, c), after (ox, olm, oc); first row of the trajectory (network) *)
Turn == 36000
NormalClauses(e) == LET ok == e.exc = "" IN
  [ no_exception |-> ok,
    same_place |-> ok => \A i \in DOMAIN e.x : (e.ox[i] - e.x[i]) % Turn = 0 /\ (e.olm[i] - e.lm[i]) % Turn = 0 /\ \A k \in DOMAIN e.c[i] : (e.oc[i][k] - e.c[i][k]) % Turn = 0,
    first_kept |-> ok => \A i \in DOMAIN e.x : (i = 1 \/ e.h[i] # e.h[i - 1]) => e.ox[i] = e.x[i],
    near_first |-> ok => \A i \in DOMAIN e.x : LET f == Min({j \in DOMAIN e.x : e.h[j] = e.h[i]}) IN e.ox[i] - e.ox[f] >= -18000 /\ e.ox[i] - e.ox[f] < 18000,
    near_row |-> ok => \A i \in DOMAIN e.x : Abs(e.olm[i] - e.ox[i]) <= 18000 /\ \A k \in DOMAIN e.c[i] : Abs(e.oc[i][k] - e.ox[i]) <= 18000,
    others |-> e.others ]
AzimuthClauses(e) == LET ok == e.exc = "" IN
  [ no_exception |-> ok,
    number |-> ok => Len(e.out) = Len(e.def),
    direction |-> ok /\ Len(e.out) = Len(e.def) => \A k \in DOMAIN e.out : LET d == (e.out[k] - e.def[k]) % 36000 IN d <= 2 \/ d >= 35998 ]
Clauses(e) == CASE e.kind = "missing" -> MissingClauses(e) [] e.kind = "virtual" -> VirtualClauses(e) [] e.kind = "fill" -> FillClauses(e)
                [] e.kind = "filter" -> FilterClauses(e) [] e.kind = "normal" -> NormalClauses(e) [] e.kind = "azimuth" -> AzimuthClauses(e)
TraceInit == c = 1
TraceNext == /\ c <= NCases
             /\ LET e == Cases[c] IN Report(c, 0, Clauses(e)) /\ Stat("kind_" \o e.kind, 1)
             /\ LastCase(c) /\ c' = c + 1
===============================================================================
