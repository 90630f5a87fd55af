------------------------------ MODULE Binning ------------------------------
(* Grouping of observations by bins and alignment of two datasets.  Values and bounds are
   integers (quarters of the unit).                                                     *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
Unit == 4
Members(xs, lo, hi) == {i \in DOMAIN xs : lo <= xs[i] /\ xs[i] < hi}
RECURSIVE Steps(_, _)
Steps(a, last) == IF a >= last THEN <<>> ELSE <<a>> \o Steps(a + Unit, last)
DefaultBins(xs) == IF xs = <<>> THEN <<>> ELSE Steps(Min(ToSet(xs)), Max(ToSet(xs)) + 2 * Unit)
Bins(xs, bins) == IF bins = <<>> THEN DefaultBins(xs) ELSE bins
(* the bins which are not empty, ascending: <<lower, upper, members>> *)
Groups(xs, bins) ==
  LET b == Bins(xs, bins)
      all == [k \in 1..(Len(b) - 1) |-> <<b[k], b[k + 1], Members(xs, b[k], b[k + 1])>>]
  IN SelectSeq(all, LAMBDA g : g[3] # {})
(* alignment of two groupings on the same bins: inner join on the lower bound, or left join *)
At(gs, lo) == LET s == {k \in DOMAIN gs : gs[k][1] = lo} IN IF s = {} THEN {} ELSE gs[CHOOSE k \in s : TRUE][3]
Align(ga, gb, all) ==
  LET j == [k \in DOMAIN ga |-> <<ga[k][1], ga[k][2], ga[k][3], At(gb, ga[k][1])>>]
  IN SelectSeq(j, LAMBDA g : all \/ g[4] # {})
(* observations around each centre *)
Window(xs, x0, w) == [k \in DOMAIN x0 |-> <<x0[k] - w, x0[k] + w, {i \in DOMAIN xs : x0[k] - w < xs[i] /\ xs[i] <= x0[k] + w}>>]
(* histograms: as groups, the last bin is closed *)
Hist(xs, bins) ==
  LET b == Bins(xs, bins) IN
  [k \in 1..(Len(b) - 1) |-> IF k = Len(b) - 1 THEN Members(xs, b[k], b[k + 1] + 1) ELSE Members(xs, b[k], b[k + 1])]
=============================================================================
