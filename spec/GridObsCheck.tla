----------------------------- MODULE GridObsCheck -----------------------------
EXTENDS GridObs, Report
VARIABLES c
Rng(s) == {s[k] : k \in DOMAIN s}
CountClauses(e) == LET ok == e.exc = "" IN
  [ no_exception |-> ok,
    counts |-> ok => Rng(e.out) = Counted(e.P, e.ax, e.ay, 360),
    others_unset |-> ok => e.clean,
    axes |-> ok => e.axes ]
CentreClauses(e) == LET ok == e.exc = "" B == Boxes(e.O, e.ax, e.ay, 2880, TRUE) IN
  [ no_exception |-> ok,
    counts |-> ok => Rng(e.out) = {<<b[1], b[2], Cardinality(B[b])>> : b \in DOMAIN B},
    others_unset |-> ok => e.clean,
    axes |-> ok => e.axes ]
(* mean of each box *)
StatClauses(e) == LET ok == e.exc = "" B == Boxes(e.O, e.ax, e.ay, 2880, TRUE) V == [k \in DOMAIN e.O |-> e.O[k][3]] IN
  [ no_exception |-> ok,
    means |-> ok => {<<r[1], r[2]>> : r \in Rng(e.out)} = DOMAIN B /\ \A r \in Rng(e.out) : LET b == <<r[1], r[2]>> IN
                      b \in DOMAIN B => Abs((r[3] * Cardinality(B[b])) - 100 * Sum(B[b], V)) <= Cardinality(B[b]),
    axes |-> ok => e.axes ]
BoxClauses(e) == LET ok == e.exc = "" B == Boxes(e.O, e.ax, e.ay, 2880, FALSE) all == \A k \in DOMAIN e.O : InSome(Place(e.O[k], e.ax, e.ay, 2880, FALSE)) IN
  [ out_of_boxes |-> ok <=> all,
    percentiles |-> ok /\ all => Rng(e.out) = {<<b[1], b[2], Percent(e.O, B[b], e.p)>> : b \in DOMAIN B},
    axes |-> ok => e.axes ]
(* what the known nodes of each contour hold; e.f values, e.m mask *)
InterpClauses(e) == LET ok == e.exc = "" IN
  [ no_exception |-> ok,
    length |-> ok => Len(e.out) = Len(e.P),
    values |-> ok => \A k \in DOMAIN e.P \cap DOMAIN e.out :
       LET all == Nodes(e.P[k], e.ax, e.ay, 360) N == {q \in all : e.m[q[1]][q[2]] = 0} V == {e.f[q[1]][q[2]] : q \in N} r == e.out[k] IN
       CASE e.method = "count" -> r = 100 * Cardinality(all)
         [] N = {} -> r = -99999
         [] e.method = "max" -> r = 100 * Max(V)
         [] e.method = "min" -> r = 100 * Min(V)
         [] OTHER -> r # -99999 /\ Abs((r * Cardinality(N)) - 100 * FoldSet(LAMBDA q, s : s + e.f[q[1]][q[2]], 0, N)) <= Cardinality(N) ]
Clauses(e) == CASE e.kind = "count" -> CountClauses(e) [] e.kind = "centre" -> CentreClauses(e) [] e.kind = "stat" -> StatClauses(e)
                [] e.kind = "box" -> BoxClauses(e) [] e.kind = "interp" -> InterpClauses(e)
TraceInit == c = 1
TraceNext == /\ c <= NCases
             /\ LET e == Cases[c] IN Report(c, 0, Clauses(e)) /\ Stat("kind_" \o e.kind, 1)
             /\ LastCase(c) /\ c' = c + 1
=============================================================================
