--------------------------- MODULE DatasetCheck ---------------------------
(* Recorded operations on the datasets of the implementation against Dataset.         *)
EXTENDS Dataset, Report
VARIABLES c
ROK(e) == e.exc = ""
SumSeq(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)
Gather == {"concat", "merge", "insert"}
Shuffle == {"index", "filters", "rindexed"} \cup Gather

Expected(e) ==
  LET D == e.rows IN
  CASE e.op \in {"concat", "merge"} -> [i \in 1..(Len(D) + Len(e.other)) |-> i]
    [] e.op = "insert" -> LET n == Len(D) m == Len(e.other)
                              at == IF e.at < 0 THEN n + e.at + 1 ELSE e.at
                          IN [i \in 1..(n + m) |-> IF i <= at THEN i ELSE IF i <= at + m THEN n + i - at ELSE i - m]
    [] e.op = "index" -> [i \in DOMAIN e.l |-> e.l[i] + 1]
    [] e.op = "filters" -> e.src
    [] OTHER -> Ordered(Result(D, e.op, e))
All(e) == e.rows \o e.other
Old(e) == [k \in DOMAIN e.src |-> All(e)[e.src[k]].tr]
(* which of the datasets gathered a position belongs to *)
Part(e, i) == Cardinality({k \in DOMAIN e.parts : i > Len(e.rows) + SumSeq(SubSeq(e.parts, 1, k - 1))})
Key(e) == [k \in DOMAIN e.src |-> <<Part(e, e.src[k]), All(e)[e.src[k]].tr>>]
Known(e) == \A k \in DOMAIN e.src : e.src[k] \in DOMAIN All(e)

(* queries by track, on the dataset returned *)
New(e) == [k \in DOMAIN e.src |-> [All(e)[e.src[k]] EXCEPT !.tr = e.tr[k]]]
Count(D, k) == Nb(D, k)
QueryOK(e, Q) ==
  LET D == New(e) IN
  [ q_nb     |-> /\ Len(Q.nb) = (IF D = <<>> THEN 0 ELSE Max(Tracks(D)) + 1)
                 /\ \A k \in DOMAIN Q.nb : Q.nb[k] = Nb(D, k - 1),
    q_first  |-> \A k \in DOMAIN Q.i0 : Nb(D, k - 1) > 0 => Q.i0[k] = FirstOf(D, k - 1) - 1,
    q_tracks |-> Q.nt = Cardinality(Tracks(D)),
    q_life   |-> Q.life = [i \in DOMAIN D |-> Nb(D, D[i].tr)],
    q_iter   |-> Q.iter = [k \in 1..Cardinality(Tracks(D)) |->
                   LET t == SetToSortSeq(Tracks(D), <)[k] IN <<FirstOf(D, t), LastOf(D, t)>>],
    q_dist0  |-> /\ Len(Q.d) = Len(D)
                 /\ \A i \in DOMAIN D : (i = LastOf(D, D[i].tr)) => Q.d[i] = 0,
    q_dist   |-> Len(Q.d) = Len(D) => \A i \in DOMAIN D : (i # LastOf(D, D[i].tr) /\ D[i].x = D[i + 1].x) => Q.d[i] = 1000 * Abs(D[i].y - D[i + 1].y),
    q_dist1  |-> Len(Q.d) = Len(D) => \A i \in DOMAIN D : (i # LastOf(D, D[i].tr) /\ (D[i].x - D[i + 1].x) % 360 # 0) => Q.d[i] > 0,
    q_add    |-> Len(Q.add) = Len(Q.d) /\ \A i \in DOMAIN Q.d : Abs(Q.add[i] - Q.d[i]) <= 10,
    q_count  |-> Q.cnt = [k \in 1..Len(Q.nb) |-> Cardinality({i \in DOMAIN D : D[i].tr = k - 1 /\ D[i].v = 1})],
    q_mask   |-> LET ids == ToSet(Q.ids) IN Q.mask = Ordered({i \in DOMAIN D : D[i].tr \in ids}),
    q_lon    |-> /\ Len(Q.norm) = Len(D)
                 /\ \A i \in DOMAIN D : /\ (Q.norm[i] - D[i].x) % 360 = 0
                                        /\ LET x0 == D[FirstOf(D, D[i].tr)].x IN Q.norm[i] >= x0 - 180 /\ Q.norm[i] < x0 + 180
  ]
PeriodOK(e) ==
  LET D == New(e) T == {D[i].t : i \in DOMAIN D} IN
  IF D = <<>> THEN e.period = <<>> ELSE e.period = <<Min(T), Max(T)>>

Clauses(e) ==
  [ no_exception |-> ROK(e),
    rows_whole |-> ROK(e) => Known(e),
    selection  |-> ROK(e) => IF e.op = "filters" THEN ToSet(e.src) = Merged(e.rows, e.fs) /\ Cardinality(ToSet(e.src)) = Len(e.src)
                             ELSE e.src = Expected(e),
    identity   |-> (ROK(e) /\ Known(e) /\ e.trk) =>
                     CASE e.op \in {"concat", "merge"} -> Regrouped(Key(e), e.tr)
                       [] e.c -> Renumbered(Old(e), e.tr)
                       [] OTHER -> e.tr = Old(e),
    stored_identity |-> ROK(e) => e.tr_stored = e.tr,
    sign       |-> ROK(e) => e.sign = e.sign_in,
    inputs_untouched |-> e.intact,
    not_shared |-> ROK(e) => ~e.alias,
    period     |-> (ROK(e) /\ Known(e)) => PeriodOK(e),
    queries_answered |-> e.q.exc = "" ]
Queries(e) == IF ROK(e) /\ Known(e) /\ e.q.ok = 1 /\ Contiguous(New(e)) /\ Sorted(New(e)) THEN QueryOK(e, e.q) ELSE [q_none |-> TRUE]

TraceInit == c = 1
TraceNext == /\ c <= NCases
             /\ LET e == Cases[c] IN
                  /\ Report(c, 0, Clauses(e))
                  /\ Report(c, 0, Queries(e))
                  /\ Stat("op_" \o e.op, 1) /\ Stat("rows", Len(e.src)) /\ Stat("queries", e.q.ok)
             /\ LastCase(c) /\ c' = c + 1
=============================================================================
