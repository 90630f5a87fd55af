------------------------------ MODULE Networks ------------------------------
(* Tables of networks. T: sequence of rows [u: observation, tr: network (0: none), sg: segment, t: date,
   n, p: next and previous row (position from 1, 0: none), nc, pc: costs of these links].            *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
Key(T, k) == <<T[k].tr, T[k].sg>>
KeyLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Keys(T) == {Key(T, k) : k \in DOMAIN T}
KeySeq(T) == SetToSortSeq(Keys(T), KeyLess)
RankOf(T) == LET q == KeySeq(T) IN [s \in Keys(T) |-> CHOOSE i \in DOMAIN q : q[i] = s]
RowsOf(T, s) == {k \in DOMAIN T : Key(T, k) = s}
First(T, s) == Min(RowsOf(T, s))
Final(T, s) == Max(RowsOf(T, s))
Nets(T) == {T[k].tr : k \in DOMAIN T}
Trash == <<0, 0>>

RowLess(T, a, b) == LET x == Key(T, a) y == Key(T, b) IN KeyLess(x, y) \/ (x = y /\ (T[a].t < T[b].t \/ (T[a].t = T[b].t /\ a < b)))
Sorted(T) == \A k \in 1..(Len(T) - 1) : RowLess(T, k, k + 1)
(* sound: links go forward in time, inside a network; the trash has none *)
Sound(T) ==
  /\ Sorted(T)
  /\ \A k \in DOMAIN T : /\ T[k].n \in 0..Len(T) /\ T[k].p \in 0..Len(T)
                         /\ T[k].n # 0 => T[T[k].n].tr = T[k].tr /\ T[T[k].n].t > T[k].t
                         /\ T[k].p # 0 => T[T[k].p].tr = T[k].tr /\ T[T[k].p].t < T[k].t
                         /\ T[k].tr = 0 => T[k].sg = 0 /\ T[k].n = 0 /\ T[k].p = 0
(* whole: moreover the rows of a segment follow each other, only its ends are linked to other segments *)
Whole(T) ==
  /\ Sound(T)
  /\ \A k \in DOMAIN T : T[k].tr # 0 =>
       LET s == Key(T, k) IN
       /\ (k # Final(T, s)) => T[k].n = k + 1 /\ T[k + 1].p = k /\ T[k + 1].t > T[k].t
       /\ (k = Final(T, s) /\ T[k].n # 0) => Key(T, T[k].n) # s
       /\ (k = First(T, s) /\ T[k].p # 0) => Key(T, T[k].p) # s

(* rows o[1], o[2].. of T, links follow *)
Pick(T, o) ==
  LET K == {o[i] : i \in DOMAIN o}
      to == TLCEval([k \in 0..Len(T) |-> IF k \in K THEN CHOOSE i \in DOMAIN o : o[i] = k ELSE 0]) IN
  [i \in DOMAIN o |-> [T[o[i]] EXCEPT !.n = to[@], !.p = to[@]]]
Take(T, K) == Pick(T, SetToSortSeq(K, LAMBDA a, b : a < b))
SortOrder(T) == SetToSortSeq(DOMAIN T, LAMBDA a, b : RowLess(T, a, b))
SortNet(T) == Pick(T, SortOrder(T))

OfNets(T, ids) == {k \in DOMAIN T : T[k].tr \in ids}
Span(T, id) == LET S == {T[k].t : k \in OfNets(T, {id})} IN Max(S) - Min(S) + 1
Lasting(T, lo, hi) == {k \in DOMAIN T : LET d == Span(T, T[k].tr) IN d >= lo /\ (hi < 0 \/ d <= hi)}
Period(T, lo, hi) ==
  LET S == {T[k].t : k \in DOMAIN T}
      a == IF lo < 0 THEN Min(S) - lo ELSE lo
      b == IF hi < 0 THEN Max(S) + hi ELSE hi IN
  {k \in DOMAIN T : (lo = 0 \/ T[k].t >= a) /\ (hi = 0 \/ T[k].t <= b)}
(* segments which meet: the first one comes from it or the last one goes to it *)
Meets(T) == LET one(s) == (IF T[First(T, s)].p = 0 THEN {} ELSE {<<s, Key(T, T[First(T, s)].p)>>}) \cup (IF T[Final(T, s)].n = 0 THEN {} ELSE {<<s, Key(T, T[Final(T, s)].n)>>})
                D == UNION {one(s) : s \in Keys(T)} IN D \cup {<<e[2], e[1]>> : e \in D}
Around(E, s) == {e[2] : e \in {e \in E : e[1] = s}}
RECURSIVE Reach(_, _)
Reach(S, E) == LET N == S \cup {e[2] : e \in {e \in E : e[1] \in S}} IN IF N = S THEN S ELSE Reach(N, E)
RECURSIVE Within(_, _, _)
Within(S, E, n) == IF n = 0 THEN S ELSE Within(S \cup {e[2] : e \in {e \in E : e[1] \in S}}, E, n - 1)
Relatives(T, obs, order) == LET W == Within({Key(T, k) : k \in obs}, Meets(T), order) IN {k \in DOMAIN T : Key(T, k) \in W}
(* how far is each segment, -1 when it can not be reached *)
Distance(T, s0) == LET E == TLCEval(Meets(T)) IN
  [s \in Keys(T) |-> IF s \notin Reach({s0}, E) THEN -1 ELSE CHOOSE n \in 0..Cardinality(Keys(T)) : s \in Within({s0}, E, n) /\ (n = 0 \/ s \notin Within({s0}, E, n - 1))]
(* rows where the water of a row may go *)
Flow(T) == {<<k, k + 1>> : k \in {k \in 1..(Len(T) - 1) : Key(T, k) = Key(T, k + 1)}}
           \cup {<<Final(T, s), T[Final(T, s)].n>> : s \in {s \in Keys(T) : T[Final(T, s)].n # 0}}
           \cup {<<T[First(T, s)].p, First(T, s)>> : s \in {s \in Keys(T) : T[First(T, s)].p # 0}}
Linked(T, obs, fwd, bwd) ==
  LET F == TLCEval(Flow(T)) B == {<<e[2], e[1]>> : e \in F} IN
  (IF fwd THEN Reach(obs, F) ELSE {}) \cup (IF bwd THEN Reach(obs, B) ELSE {})

(* events; positions of rows *)
(* the trash comes first, is numbered 0 and nothing in it is linked *)
IsTrash(T, s) == s = KeySeq(T)[1] /\ (s[1] = 0 \/ s[2] = 0) /\ \A k \in RowsOf(T, s) : T[k].n = 0 /\ T[k].p = 0
Births(T) == {k \in {First(T, s) : s \in {s \in Keys(T) : ~IsTrash(T, s)}} : T[k].p = 0}
Deaths(T) == {k \in {Final(T, s) : s \in {s \in Keys(T) : ~IsTrash(T, s)}} : T[k].n = 0}
(* the row after, the row before it, the row which stops *)
Mergings(T) == {<<T[k].n, T[T[k].n].p, k>> : k \in {k \in {Final(T, s) : s \in Keys(T)} : T[k].n # 0}}
(* the row before, the row after it, the row which starts *)
Splittings(T) == {<<T[k].p, T[T[k].p].n, k>> : k \in {k \in {First(T, s) : s \in Keys(T)} : T[k].p # 0}}
RECURSIVE Along(_, _, _, _)
Along(T, k, t0, q) == IF k = 0 THEN {} ELSE LET d == IF T[k].t < t0 THEN t0 - T[k].t ELSE T[k].t - t0 IN
                      IF d < q.dt THEN {k} \cup Along(T, IF q.fwd THEN T[k].n ELSE T[k].p, t0, q) ELSE {}
Follow(T, k, dt, fwd) == IF k = 0 THEN {} ELSE {k} \cup Along(T, IF fwd THEN T[k].n ELSE T[k].p, T[k].t, [dt |-> dt, fwd |-> fwd])
CloseTo(T, mrg, spl, dt) ==
  (IF mrg THEN UNION {Follow(T, e[1], dt, TRUE) \cup Follow(T, e[2], dt, FALSE) \cup Follow(T, e[3], dt, FALSE) : e \in Mergings(T)} ELSE {})
  \cup (IF spl THEN UNION {Follow(T, e[1], dt, FALSE) \cup Follow(T, e[2], dt, TRUE) \cup Follow(T, e[3], dt, TRUE) : e \in Splittings(T)} ELSE {})

(* networks without interaction are separated, numbered from 1 in order; the trash is kept *)
Parts(T) == LET E == TLCEval(Meets(T)) IN {Reach({s}, E) : s \in {s \in Keys(T) : s[1] # 0}}
PartLess(A, B) == \E a \in A : \A b \in B : KeyLess(a, b)
PartSeq(T) == SetToSortSeq(Parts(T), PartLess)
Dissociate(T) ==
  LET q == TLCEval(PartSeq(T)) IN
  SortNet([k \in DOMAIN T |-> IF T[k].tr = 0 THEN T[k] ELSE [T[k] EXCEPT !.tr = CHOOSE i \in DOMAIN q : Key(T, k) \in q[i]]])

(* short segments which do not connect others go to the trash; mask: rows whose segment is kept *)
Kept(T, nobs, ndays, mask) ==
  LET E == TLCEval(Meets(T)) IN
  {s \in Keys(T) : \/ Cardinality(RowsOf(T, s)) >= nobs /\ T[Final(T, s)].t - T[First(T, s)].t + 1 >= ndays
                   \/ Cardinality(Around(E, s)) >= 2
                   \/ \E k \in RowsOf(T, s) : k \in mask}
Away(T, K) ==
  LET out == {k \in DOMAIN T : Key(T, k) \notin K} cut(k) == IF k \in out THEN 0 ELSE k IN
  [k \in DOMAIN T |-> IF k \in out THEN [T[k] EXCEPT !.tr = 0, !.sg = 0, !.n = 0, !.p = 0, !.nc = 0, !.pc = 0]
                      ELSE [T[k] EXCEPT !.n = cut(@), !.p = cut(@)]]
RECURSIVE DeadEnd(_, _, _, _, _)
DeadEnd(T, nobs, ndays, rec, mask) ==
  LET A == TLCEval(Away(T, Kept(T, nobs, ndays, mask))) o == SortOrder(A) R == TLCEval(Pick(A, o)) IN
  IF rec = 0 THEN R ELSE DeadEnd(R, nobs, ndays, rec - 1, {i \in DOMAIN o : o[i] \in mask})

(* new numbers *)
NumberNets(T, start) == [k \in DOMAIN T |-> [T[k] EXCEPT !.tr = start + Cardinality({i \in Nets(T) : i < @})]]
NumberSegs(T, start) == [k \in DOMAIN T |-> [T[k] EXCEPT !.sg = start + Cardinality({s \in Keys(T) : s[1] = T[k].tr /\ s[2] < T[k].sg})]]

(* a segment which leaves B and then takes the end of B gives it back: s goes on with the end of the segment which it meets *)
RECURSIVE CloseLoop(_, _, _, _, _)
CloseLoop(T, q, sg, pv, nbd) ==
  (* q: original segments still to see; sg: segment of each row, pv: previous row *)
  IF q = <<>> THEN [sg |-> sg, pv |-> pv]
  ELSE
    LET e == Final(T, q[1]) x == T[e].n mine == sg[e] IN
    IF x = 0 THEN CloseLoop(T, Tail(q), sg, pv, nbd)
    ELSE
      LET other == sg[x] f == First(T, other) from == pv[f] IN
      IF from # 0 /\ sg[from] = mine /\ other # mine /\ T[x].t - T[from].t < nbd
      THEN CloseLoop(T, Tail(q), [k \in DOMAIN T |-> IF sg[k] = other /\ T[k].t >= T[x].t THEN mine ELSE sg[k]], [pv EXCEPT ![x] = e], nbd)
      ELSE CloseLoop(T, Tail(q), sg, pv, nbd)
CloseEvents(T, nbd) ==
  LET r == TLCEval(CloseLoop(T, KeySeq(T), [k \in DOMAIN T |-> Key(T, k)], [k \in DOMAIN T |-> T[k].p], nbd)) IN
  SortNet([k \in DOMAIN T |-> [T[k] EXCEPT !.sg = r.sg[k][2], !.p = r.pv[k]]])

(* the short end of a segment after a splitting is exchanged with the long segment which begins there *)
Eligible(T, lmain, lsec, pct) ==
  {e \in Splittings(T) : LET m == Final(T, Key(T, e[1])) x == Final(T, Key(T, e[3])) IN
     /\ e[2] # 0 /\ T[m].t - T[e[1]].t <= lmain /\ T[x].t - T[e[3]].t >= lsec /\ T[m].n = 0
     /\ Key(T, e[2]) = Key(T, e[1]) /\ T[e[3]].pc - T[e[2]].pc > pct}
(* rows which follow each other in a segment, once C (events) are exchanged *)
Chained(T, C) ==
  LET main == {e[1] : e \in C} IN
  {<<k, k + 1>> : k \in {k \in 1..(Len(T) - 1) : Key(T, k) = Key(T, k + 1) /\ k \notin main}} \cup {<<e[1], e[3]>> : e \in C}
OnePer(S) == {C \in SUBSET S : {e[1] : e \in C} = {e[1] : e \in S} /\ \A e \in C, f \in C : e[1] = f[1] => e = f}
=============================================================================
