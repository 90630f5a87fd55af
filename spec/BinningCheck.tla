---------------------------- MODULE BinningCheck ----------------------------
(* Recorded iterations, alignments and histograms against Binning.                      *)
EXTENDS Binning, Report
VARIABLES c
Plain(gs) == [k \in DOMAIN gs |-> <<gs[k][1], gs[k][2], ToSet(gs[k][3])>>]
Plain2(gs) == [k \in DOMAIN gs |-> <<gs[k][1], gs[k][2], ToSet(gs[k][3]), ToSet(gs[k][4])>>]
Sum(S, f(_)) == FoldSet(LAMBDA i, s : s + f(i), 0, S)
Sq(x) == x * x
(* positions kept by the filter *)
Sub(e) == LET q == SelectSeq([i \in DOMAIN e.xs |-> i], LAMBDA i : e.mask = <<-1>> \/ i - 1 \in ToSet(e.mask)) IN q
Clauses(e) ==
  [ no_exception |-> e.exc = "",
    groups |-> (e.exc = "" /\ e.kind = "iter") => Plain(e.groups) = Groups(e.xs, e.bins),
    once   |-> (e.exc = "" /\ e.kind \in {"iter", "window"}) => \A k \in DOMAIN e.groups : Len(e.groups[k][3]) = Cardinality(ToSet(e.groups[k][3])),
    aligned |-> (e.exc = "" /\ e.kind = "align") => Plain2(e.groups) = Align(Groups(e.xs, e.bins), Groups(e.ys, e.bins), e.all),
    window |-> (e.exc = "" /\ e.kind = "window") => Plain(e.groups) = Window(e.xs, e.bins, e.w),
    counts |-> (e.exc = "" /\ e.kind = "hist" /\ e.method = "count") =>
        LET q == Sub(e) xs == [k \in DOMAIN q |-> e.xs[q[k]]] h == Hist(xs, e.bins) IN
        e.out = [k \in DOMAIN h |-> Cardinality(h[k])],
    means |-> (e.exc = "" /\ e.kind = "hist" /\ e.method \in {"mean", "sum", "std"}) =>
        LET q == Sub(e) xs == [k \in DOMAIN q |-> e.xs[q[k]]] h == Hist(xs, e.bins) IN
        /\ Len(e.out) = Len(h)
        /\ \A k \in DOMAIN h : LET n == Cardinality(h[k]) s == Sum(h[k], LAMBDA i : e.ys[q[i]]) s2 == Sum(h[k], LAMBDA i : Sq(e.ys[q[i]])) IN
             CASE e.method = "sum" -> e.out[k] = 1000 * s
               [] n = 0 -> e.out[k] = -1
               (* thousandths *)
               [] e.method = "mean" -> LET d == e.out[k] * n - 1000 * s IN d <= n /\ -d <= n
               (* hundredths *)
               [] OTHER -> LET d == Sq(e.out[k] * n) - 10000 * (n * s2 - Sq(s)) IN d <= 2 * e.out[k] * n * n + n * n /\ -d <= 2 * e.out[k] * n * n + n * n,
    centers |-> (e.exc = "" /\ e.kind = "hist" /\ e.x # <<-1>>) =>
        LET q == Sub(e) b == Bins([k \in DOMAIN q |-> e.xs[q[k]]], e.bins) IN
        e.x = [k \in 1..(Len(b) - 1) |-> b[k] + b[k + 1]] ]
TraceInit == c = 1
TraceNext == /\ c <= NCases
             /\ Report(c, 0, Clauses(Cases[c]))
             /\ Stat(Cases[c].kind, 1) /\ Stat("groups", IF Cases[c].kind = "hist" THEN 0 ELSE Len(Cases[c].groups))
             /\ LastCase(c) /\ c' = c + 1
=============================================================================
