----------------------------- MODULE FiltersCheck -----------------------------
EXTENDS Filters, Report
VARIABLES c
NX(e) == Len(e.f)
NY(e) == Len(e.f[1])
(* e.K one kernel by row (<<>> for idle rows), integers; e.out hundredths, -999999 unknown *)
Given(r) == r # -999999
CustomClauses(e) == LET ok == e.exc = "" P == (1..NX(e)) \X (1..NY(e))
    S == TLCEval([p \in P |-> IF Idle(e.m, p[2], e.on) THEN <<0, 0, 0, 0>> ELSE Sums(e.f, e.m, p[1], p[2], e.K[p[2]], e.circ)]) IN
  [ no_exception |-> ok,
    shape |-> ok => e.shape,
    known |-> ok => \A p \in P : Given(e.out[p[1]][p[2]]) = Known(e.m, p[1], p[2], e.K[p[2]], e.on, e.extend, S[p]),
    weighted_mean |-> ok => \A p \in P : LET r == e.out[p[1]][p[2]] IN Given(r) /\ S[p][1] # 0 => Abs((r * S[p][1]) - (100 * S[p][2])) <= Abs(S[p][1]),
    source_kept |-> ok => e.kept ]
(* operations: e.low, e.low2 the low pass fields computed apart (twice for a band); e.pts nodes of e.low looked at *)
OpClauses(e) == LET ok == e.exc = "" P == (1..NX(e)) \X (1..NY(e)) B(r, s) == Abs(r - s) <= 1 IN
  [ no_exception |-> ok,
    known |-> ok => \A p \in P : Given(e.out[p[1]][p[2]]) = (~Idle(e.m, p[2], e.on) /\ e.m[p[1]][p[2]] = 0),
    value |-> ok => \A p \in P : LET x == p[1] y == p[2] r == e.out[x][y] IN Given(r) =>
       CASE e.op = "low" -> B(r, e.low[x][y])
         [] e.op = "high" -> B(r, (100 * e.f[x][y]) - e.low[x][y])
         [] e.op = "band" -> B(r, e.low[x][y] - e.low2[x][y]),
    low |-> ok => \A p \in {<<q[1], q[2]>> : q \in {e.pts[k] : k \in DOMAIN e.pts}} : LET r == e.low[p[1]][p[2]] s == Sums(e.f, e.m, p[1], p[2], e.K[p[2]], e.circ) IN
       Given(r) /\ Abs(r) < 20000 => Abs((r * s[1]) - (100 * s[2])) <= Abs(s[1]) + (s[4] * Abs(r)) + (100 * s[3]) + 100,
    file |-> ok => e.file ]
(* a kernel: distances (km) and values (ten-thousandths), as recorded and as they are defined *)
KernelClauses(e) == LET ok == e.exc = "" P == IF ok THEN (1..Len(e.k)) \X (1..Len(e.k[1])) ELSE {} IN
  [ too_short |-> ok <=> ~e.short,
    odd |-> ok => Len(e.k) % 2 = 1 /\ Len(e.k[1]) % 2 = 1,
    size |-> ok => Len(e.k) = Len(e.def) /\ Len(e.k[1]) = Len(e.def[1]),
    symmetric |-> \A p \in P : e.k[p[1]][p[2]] = e.k[Len(e.k) + 1 - p[1]][p[2]],
    reach |-> ok /\ Len(e.k) = Len(e.def) /\ Len(e.k[1]) = Len(e.def[1]) => \A p \in P : e.d[p[1]][p[2]] > e.order * e.wl + 1 => e.k[p[1]][p[2]] = 0,
    values |-> ok /\ Len(e.k) = Len(e.def) /\ Len(e.k[1]) = Len(e.def[1]) => \A p \in P : Abs(e.k[p[1]][p[2]] - e.def[p[1]][p[2]]) <= 2 ]
Clauses(e) == CASE e.kind = "custom" -> CustomClauses(e) [] e.kind = "op" -> OpClauses(e) [] e.kind = "kernel" -> KernelClauses(e)
TraceInit == c = 1
TraceNext == /\ c <= NCases
             /\ LET e == Cases[c] IN Report(c, 0, Clauses(e)) /\ Stat("kind_" \o e.kind, 1)
             /\ LastCase(c) /\ c' = c + 1
===============================================================================
