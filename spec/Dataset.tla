------------------------------ MODULE Dataset ------------------------------
(* Observation datasets as sequences of rows; a row is
     [tr: track id, n: position in its track, v: virtual (0/1), t: day, x: lon, y: lat]
   with whole days and degrees.  The result of an operation is given by the sequence of
   positions (1..Len) kept, in order; thresholds of operations are in half units (odd)
   when an equality must not be decided.                                             *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
Idx(D) == [i \in 1..Len(D) |-> i]
Kept(D, P(_)) == SelectSeq(Idx(D), P)
Tracks(D) == {D[i].tr : i \in DOMAIN D}
RowsOf(D, k) == {i \in DOMAIN D : D[i].tr = k}
Nb(D, k) == Cardinality(RowsOf(D, k))
FirstOf(D, k) == Min(RowsOf(D, k))
LastOf(D, k) == Max(RowsOf(D, k))
(* what every query by track supposes: observations of a track are contiguous *)
Contiguous(D) == \A k \in Tracks(D) : LastOf(D, k) - FirstOf(D, k) + 1 = Nb(D, k)
Sorted(D) == \A i, j \in DOMAIN D : i < j => D[i].tr <= D[j].tr
Complete(D) == \A i \in DOMAIN D : D[i].n = i - FirstOf(D, D[i].tr)

(* selection by mask (a set of positions) with the options of track datasets *)
NoOpt == [full |-> FALSE, inc |-> FALSE, rv |-> FALSE]
Closed(D, M) == {i \in DOMAIN D : \E j \in M : D[j].tr = D[i].tr}
Select(D, M, o) ==
  IF o.full THEN Closed(D, IF o.rv THEN {i \in M : D[i].v = 0} ELSE M)
  ELSE IF o.inc THEN DOMAIN D \ Closed(D, DOMAIN D \ M)
  ELSE M
Ordered(S) == SetToSortSeq(S, <)
(* renumbering: same partition, same order, consecutive numbers *)
Renumbered(old, new) ==
  /\ Len(old) = Len(new)
  /\ \A i, j \in DOMAIN old : (old[i] = old[j] <=> new[i] = new[j]) /\ (old[i] < old[j] => new[i] < new[j])
  /\ LET S == {new[i] : i \in DOMAIN new} IN S = {} \/ Max(S) - Min(S) + 1 = Cardinality(S)
(* identities after gathering parts: two rows share a track iff same part and same track before *)
Regrouped(key, new) == \A i, j \in DOMAIN key : key[i] = key[j] <=> new[i] = new[j]

(* predicates on rows *)
InPeriod(D, i, p0, p1) ==
  LET T == {D[j].t : j \in DOMAIN D}
      lo == IF p0 < 0 THEN Min(T) - p0 ELSE p0
      hi == IF p1 < 0 THEN Max(T) + p1 ELSE p1
  IN (p0 = 0 \/ D[i].t >= lo) /\ (p1 = 0 \/ D[i].t <= hi)
(* bounds in half degrees, odd; lon on a circle *)
InArea(r, a) == /\ 2 * r.y > a[2] /\ 2 * r.y < a[4]
                /\ (2 * r.x - a[1]) % 720 < a[3] - a[1]
InLength(D, i, b) == LET n == Nb(D, D[i].tr) IN (b[1] = -1 \/ n >= b[1]) /\ (b[2] = -1 \/ n <= b[2])
DX(D, k) == D[LastOf(D, k)].x - D[FirstOf(D, k)].x
DY(D, k) == D[LastOf(D, k)].y - D[FirstOf(D, k)].y
Wrap(d) == ((d + 180) % 360) - 180
Abs(x) == IF x < 0 THEN -x ELSE x
(* dl: odd, half degrees, -1 when no minimum *)
Toward(D, k, west, dl) == LET d == DX(D, k) IN (IF west THEN d < 0 ELSE d > 0) /\ 2 * Abs(d) > dl
Heading(D, k, dir, dl) ==
  LET d == CASE dir \in {"N", "S"} -> DY(D, k) [] OTHER -> Wrap(DX(D, k))
  IN (IF dir \in {"S", "W"} THEN d < 0 ELSE d > 0) /\ 2 * Abs(d) > dl
FirstInBox(D, i, res) == ~\E j \in 1..(i - 1) : /\ D[j].tr = D[i].tr /\ D[j].x \div res = D[i].x \div res
                                               /\ D[j].y \div res = D[i].y \div res

(* intersection of filters: [k: "slice" a b | "mask" s | "index" s | "all"], positions from 0 *)
Fset(D, f) == CASE f.k = "slice" -> {i \in DOMAIN D : f.a <= i - 1 /\ i - 1 < f.b}
                [] f.k = "all" -> DOMAIN D
                [] OTHER -> {i \in DOMAIN D : i - 1 \in ToSet(f.s)}
Merged(D, fs) == {i \in DOMAIN D : \A k \in DOMAIN fs : i \in Fset(D, fs[k])}

(* the set of positions kept by an operation on one dataset *)
Result(D, op, o) ==
  CASE op = "mask" -> Select(D, {i \in DOMAIN D : i - 1 \in ToSet(o.m)}, o)
    [] op = "ids" -> {i \in DOMAIN D : D[i].tr \in ToSet(o.ids)}
    [] op = "length" -> {i \in DOMAIN D : InLength(D, i, o.b)}
    [] op = "longer" -> {i \in DOMAIN D : Nb(D, D[i].tr) >= o.nbmin}
    [] op = "period" -> Select(D, {i \in DOMAIN D : InPeriod(D, i, o.p[1], o.p[2])}, o)
    [] op = "area" -> Select(D, {i \in DOMAIN D : InArea(D[i], o.a)}, o)
    [] op = "toward" -> {i \in DOMAIN D : Toward(D, D[i].tr, o.west, o.dl)}
    [] op = "heading" -> {i \in DOMAIN D : Heading(D, D[i].tr, o.dir, o.dl)}
    [] op = "box" -> {i \in DOMAIN D : FirstInBox(D, i, o.res)}
    [] op = "tsub" -> {i \in DOMAIN D : (D[i].t - o.t0) % o.step = 0}
    [] op = "first" -> {i \in DOMAIN D : i = FirstOf(D, D[i].tr)}
    [] op = "last" -> {i \in DOMAIN D : i = LastOf(D, D[i].tr)}
    [] op = "slice" -> {i \in DOMAIN D : o.s <= i - 1 /\ i - 1 < o.e}
    [] op = "rindex" -> {i \in DOMAIN D : i - 1 \notin ToSet(o.l)}
    [] OTHER -> DOMAIN D
=============================================================================
