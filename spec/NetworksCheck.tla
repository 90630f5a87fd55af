--------------------------- MODULE NetworksCheck ---------------------------
(* One operation on a table of networks: a the table before, a2 after, b the result. *)
EXTENDS Networks, Report
VARIABLES c
OK(e) == e.exc = ""
Out(e) == OK(e) /\ "b" \in DOMAIN e
(* tables which hold the same rows; costs of links only *)
Bare(T) == [k \in DOMAIN T |-> [T[k] EXCEPT !.nc = IF T[k].n = 0 THEN 0 ELSE @, !.pc = IF T[k].p = 0 THEN 0 ELSE @]]
Exact(e, R) == Out(e) => Bare(e.b) = Bare(R)
Uof(T, k) == IF k = 0 THEN 0 ELSE T[k].u
Abstract(T) == {<<T[k].u, T[k].tr, T[k].sg, T[k].t, Uof(T, T[k].n), Uof(T, T[k].p), Bare(T)[k].nc, Bare(T)[k].pc>> : k \in DOMAIN T}
InRange(T) == \A k \in DOMAIN T : T[k].n \in 0..Len(T) /\ T[k].p \in 0..Len(T)
WeakSorted(T) == \A k \in 1..(Len(T) - 1) : KeyLess(Key(T, k), Key(T, k + 1)) \/ (Key(T, k) = Key(T, k + 1) /\ T[k].t <= T[k + 1].t)
Resorted(e, R) == Out(e) => InRange(e.b) /\ Len(e.b) = Len(R) /\ Abstract(e.b) = Abstract(R) /\ WeakSorted(e.b)
Set(q) == {q[i] : i \in DOMAIN q}
Pos(q) == {q[i] : i \in DOMAIN q}
SegNo(T, i) == KeySeq(T)[i + 1]
Is(e, o) == e.op = o /\ OK(e)
Asked(e) ==
  LET T == e.a IN
  CASE e.op = "mask"   -> Take(T, Pos(e.k))
    [] e.op = "light"  -> Take(T, Pos(e.k))
    [] e.op = "nets"   -> Take(T, OfNets(T, Set(e.ids)))
    [] e.op = "segs"   -> Take(T, {k \in DOMAIN T : RankOf(T)[Key(T, k)] - 1 \in Set(e.ids)})
    [] e.op = "period" -> Take(T, Period(T, e.lo, e.hi))
    [] e.op = "longer" -> Take(T, Lasting(T, e.lo, e.hi))
    [] e.op = "notrash" -> IF IsTrash(T, KeySeq(T)[1]) THEN Take(T, {k \in DOMAIN T : T[k].tr # 0}) ELSE T
    [] e.op = "relatives" -> Take(T, Relatives(T, Pos(e.k), e.order))
    [] e.op = "link"   -> Take(T, Linked(T, Pos(e.k), e.fwd, e.bwd))
    [] e.op = "bydate" -> Take(T, {k \in DOMAIN T : LET D == {T[j].t : j \in OfNets(T, {T[k].tr})} IN e.lo \in D /\ e.lo + e.hi \in D})
    [] OTHER -> T
PURE == {"mask", "light", "nets", "segs", "period", "longer", "notrash", "relatives", "link", "bydate", "app"}
RealTrash(T) == T # <<>> /\ IsTrash(T, KeySeq(T)[1])
NoTrash(T) == IF RealTrash(T) THEN Take(T, {k \in DOMAIN T : T[k].tr # 0}) ELSE T
(* what the application subset_network writes *)
AppResult(T, o) ==
  LET A == TLCEval(IF o.ids = <<>> THEN T ELSE Take(T, OfNets(T, Set(o.ids))))
      B == TLCEval(IF o.length THEN Take(A, Lasting(A, o.lo, o.hi)) ELSE A)
      C == TLCEval(IF o.dead /\ B # <<>> THEN DeadEnd(B, o.nobs, o.ndays, 0, {}) ELSE B)
      D == TLCEval(IF o.trash THEN NoTrash(C) ELSE C) IN
  IF o.period /\ D # <<>> THEN Take(D, Period(D, o.p0, o.p1)) ELSE D
Num(T, i) == RankOf(T)[Key(T, i)] - 1
SelectionClauses(e) ==
  [ subset_network |-> (e.op = "app" /\ Out(e)) => Resorted(e, AppResult(e.a, e.o)),
    selected |-> (Out(e) /\ e.op # "app") => e.b = Asked(e) \/ Bare(e.b) = Bare(Asked(e)) ]
InPlaceClauses(e) ==
  [ resorted |-> e.op = "sort" => Resorted(e, SortNet(e.a)),
    translated |-> (e.op = "sort" /\ Out(e)) => Len(e.order) = Len(e.a) /\ \A k \in DOMAIN e.order : e.order[k] \in DOMAIN e.a /\ e.b[k].u = e.a[e.order[k]].u /\ e.trans[e.order[k]] = k,
    deadend  |-> e.op = "deadend" => Resorted(e, DeadEnd(e.a, e.nobs, e.ndays, e.rec, Pos(e.k))),
    dissociated |-> e.op = "dissociate" => Resorted(e, Dissociate(e.a)),
    close_events |-> e.op = "close" => Resorted(e, CloseEvents(e.a, e.nbd)),
    numbered_networks |-> e.op = "numn" => Exact(e, NumberNets(e.a, e.start)),
    numbered_segments |-> e.op = "nums" => Exact(e, NumberSegs(e.a, e.start)),
    swapped |-> (e.op = "swap" /\ Out(e)) =>
       LET S == Eligible(e.a, e.lmain, e.lsec, e.pct)
           ok(C) == LET E == Chained(e.a, C) S2 == E \cup {<<w[2], w[1]>> : w \in E}
                        at(k) == CHOOSE i \in DOMAIN e.b : e.b[i].u = e.a[k].u IN
             \A k \in DOMAIN e.a : LET i == at(k) IN
               /\ {e.b[j].u : j \in RowsOf(e.b, Key(e.b, i))} = (IF e.a[k].tr = 0 THEN {e.a[j].u : j \in RowsOf(e.a, Key(e.a, k))} ELSE {e.a[j].u : j \in Reach({k}, S2)})
               /\ e.b[i].tr = e.a[k].tr
               /\ Uof(e.b, e.b[i].p) = Uof(e.a, e.a[k].p)
               /\ e.b[i].p # 0 => e.b[i].pc = e.a[k].pc
               /\ e.b[i].n # 0 => e.b[i].nc = (IF \E w \in C : w[1] = k THEN e.a[(CHOOSE w \in C : w[1] = k)[3]].pc ELSE e.a[k].nc)
               /\ Uof(e.b, e.b[i].n) = Uof(e.a, IF \E w \in C : w[1] = k THEN (CHOOSE w \in C : w[1] = k)[3] ELSE e.a[k].n) IN
       Len(e.b) = Len(e.a) /\ {e.b[i].u : i \in DOMAIN e.b} = {e.a[i].u : i \in DOMAIN e.a} /\ WeakSorted(e.b) /\ \E C \in OnePer(S) : ok(C) ]
Keeps(e) ==
  [ source_kept |-> ((e.op \in PURE \cup {"query", "events", "identify", "compare"}) /\ OK(e)) => e.a2 = e.a,
    sound       |-> (Out(e) /\ e.whole /\ e.op \notin {"mask", "light", "numn", "nums"}) => Sound(e.b),
    whole       |-> (Out(e) /\ e.whole /\ e.op \in {"nets", "segs", "longer", "period", "notrash", "relatives", "sort", "deadend", "dissociate", "close", "swap"}) => Whole(e.b) ]
QueryClauses(e) ==
  LET T == e.a q == KeySeq(T) N == Nets(T) lo == Min(N) hi == Max(N) go == Is(e, "query") IN
  [ nb_network |-> go => e.nbn = Cardinality(N),
    nb_segment |-> go => e.nbs = Cardinality(Keys(T)),
    network_sizes |-> go => e.sizes = [i \in 1..(hi - lo + 1) |-> Cardinality(OfNets(T, {lo + i - 1}))] /\ e.some = [i \in DOMAIN e.ids |-> Cardinality(OfNets(T, {e.ids[i]}))],
    segment_sizes |-> go => e.segsizes = [i \in DOMAIN q |-> Cardinality(RowsOf(T, q[i]))],
    network_segments |-> go => e.netsegs = [i \in 1..(hi - lo + 1) |-> Cardinality({s \in Keys(T) : s[1] = lo + i - 1})],
    unique_ids |-> go => e.sta = [k \in DOMAIN T |-> Num(T, k)],
    trash |-> go => e.trash = IsTrash(T, q[1]),
    by_segment |-> go => e.segsum = [i \in DOMAIN q |-> MapThenSumSet(LAMBDA k : T[k].u, RowsOf(T, q[i]))],
    by_segment_rows |-> go => e.segrow = [k \in DOMAIN T |-> MapThenSumSet(LAMBDA j : T[j].u, RowsOf(T, Key(T, k)))],
    by_network |-> go => {<<e.netsum[i][1], e.netsum[i][2]>> : i \in DOMAIN e.netsum} = {<<n, MapThenSumSet(LAMBDA k : T[k].u, OfNets(T, {n}))>> : n \in N} /\ Len(e.netsum) = Cardinality(N),
    identity_of |-> go => e.ident = q,
    meets |-> go => {<<e.conn[i][1], e.conn[i][2]>> : i \in DOMAIN e.conn} = {<<RankOf(T)[w[1]] - 1, RankOf(T)[w[2]] - 1>> : w \in Meets(T)},
    tags |-> go => Len(e.tags) = Len(q) /\ LET E == Meets(T) IN \A i \in DOMAIN q, j \in DOMAIN q : (e.tags[i] = e.tags[j]) <=> (q[j] \in Reach({q[i]}, E)),
    distance |-> (go /\ e.seg # -1) => LET D == Distance(T, <<T[1].tr, e.seg>>) IN e.dist = [k \in DOMAIN T |-> D[Key(T, k)]] ]
Times(T, q) == \A i \in 1..(Len(q) - 1) : T[q[i]].t <= T[q[i + 1]].t
Known(S) == {e \in S : 0 \notin {e[1], e[2], e[3]}}
Triples(q) == {<<q[1][i], q[2][i], q[3][i]>> : i \in DOMAIN q[1]}
EventClauses(e) ==
  LET T == e.a go == Is(e, "events") M == Mergings(T) S == Splittings(T) IN
  [ births |-> go => e.births = SetToSortSeq(Births(T), <),
    deaths |-> go => e.deaths = SetToSortSeq(Deaths(T), <),
    mergings |-> go => e.m1 = SetToSortSeq({w[1] : w \in M}, <),
    splittings |-> go => e.s1 = SetToSortSeq({w[1] : w \in S}, <),
    merging_triplets |-> go => /\ Len(e.m3[1]) = Cardinality(M) /\ Times(T, e.m3[1])
                               /\ {<<w[1], w[3]>> : w \in Triples(e.m3)} = {<<w[1], w[3]>> : w \in M} /\ Known(M) \subseteq Triples(e.m3),
    splitting_triplets |-> go => /\ Len(e.s3[1]) = Cardinality(S) /\ Times(T, e.s3[1])
                                 /\ {<<w[1], w[3]>> : w \in Triples(e.s3)} = {<<w[1], w[3]>> : w \in S} /\ Known(S) \subseteq Triples(e.s3),
    tables |-> go => e.tables = 1,
    close_to_events |-> go => \A i \in DOMAIN e.near : LET w == e.near[i] IN Pos(w.k) = CloseTo(T, w.mrg, w.spl, w.dt) ]
Triples2(q) == {<<q[i][1], q[i][2]>> : i \in DOMAIN q}
Content(T, S) == {T[k].u : k \in S}
IdentifyClauses(e) ==
  LET T == e.a R == e.other go == Is(e, "identify")
      G == IF e.segment THEN {RowsOf(T, s) : s \in Keys(T)} ELSE {OfNets(T, {n}) : n \in Nets(T)}
      H == IF e.segment THEN {RowsOf(R, s) : s \in Keys(R)} ELSE {OfNets(R, {n}) : n \in Nets(R)}
      id(X, K) == LET k == Min(K) IN IF e.segment THEN RankOf(X)[Key(X, k)] - 1 ELSE X[k].tr
      want == {<<id(T, K), IF \E L \in H : Content(R, L) = Content(T, K) THEN id(R, CHOOSE L \in H : Content(R, L) = Content(T, K)) ELSE -1>> : K \in {K \in G : Cardinality(K) >= e.size}} IN
  [ identified |-> go => Triples2(e.pairs) = want /\ Len(e.pairs) = Cardinality(want) ]
(* a table without observation, a chain of many segments *)
EmptyClauses(e) == [ nothing |-> OK(e) => e.rows = 0 /\ e.nbn = 0 /\ e.nbs = 0 ]
DeepClauses(e) == [ deep |-> OK(e) => e.after = e.size - e.at /\ e.before = e.at + 1 /\ e.both = e.size /\ e.tags = 1 /\ e.dist = <<e.at, 0, e.size - 1 - e.at>> ]
(* networks with the same content, and among them those with the same segments; segments with the same content *)
CompareClauses(e) ==
  LET T == e.a R == e.other go == Is(e, "compare")
      at(X, n) == Content(X, OfNets(X, {n}))
      same == {n \in Nets(T) : Cardinality(OfNets(T, {n})) >= 2 /\ \E m \in Nets(R) : at(R, m) = at(T, n)}
      cuts(X, n) == {Content(X, RowsOf(X, s)) : s \in {s \in Keys(X) : s[1] = n}}
      alike == {n \in same : \E m \in Nets(R) : at(R, m) = at(T, n) /\ cuts(R, m) = cuts(T, n)}
      segs == {s \in Keys(T) : \E z \in Keys(R) : Content(R, RowsOf(R, z)) = Content(T, RowsOf(T, s))}
      obs(S) == Cardinality(OfNets(T, S)) IN
  [ compared |-> go => e.same = <<Cardinality(same), obs(same), Cardinality(alike), obs(alike), Cardinality(segs), Cardinality({k \in DOMAIN T : Key(T, k) \in segs})>> ]
Clauses(e) == IF "what" \in DOMAIN e THEN [no_exception |-> e.exc = ""] @@ (IF e.what = "empty" THEN EmptyClauses(e) ELSE DeepClauses(e)) ELSE
              [no_exception |-> e.exc = ""] @@ (IF e.op \in PURE THEN SelectionClauses(e) ELSE IF e.op = "query" THEN QueryClauses(e) ELSE IF e.op = "events" THEN EventClauses(e)
              ELSE IF e.op = "compare" THEN CompareClauses(e)
              ELSE IF e.op = "identify" THEN IdentifyClauses(e) ELSE InPlaceClauses(e)) @@ Keeps(e)
TraceInit == c = 1
TraceNext == c <= NCases /\ Report(c, 0, Clauses(Cases[c])) /\ Stat("op_" \o Cases[c].op, 1) /\ Stat("rows", Len(Cases[c].a)) /\ LastCase(c) /\ c' = c + 1
=============================================================================
