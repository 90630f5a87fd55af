--------------------------- MODULE Identification ---------------------------
(* Eddies are outermost acceptable closed contours of a field of heights.
   Heights are in sixteenths of a step, level l is at 16 * l; contours are records
   [l, px, err]: level, set of the nodes inside, shape error (1/100 %, negative: undefined).
   P: the rules [mle, nmin, nmle, pmin, pmax, thr].                                     *)
EXTENDS Integers, Sequences, FiniteSets
Abs(a) == IF a < 0 THEN -a ELSE a
Max(S) == CHOOSE a \in S : \A b \in S : a >= b
(* Above the contour by; sgn = 1: hills, sgn = -1: hollows *)
By(h, sgn, l, p) == sgn * (h[p] - 16 * l)
(* local extrema among the nodes inside: no known neighbour (Nb) is higher *)
Extrema(h, Nb(_), sgn, px) == {p \in px : \A r \in Nb(p) : sgn * h[r] < sgn * h[p]}
Amplitude(h, Nb(_), sgn, c) == Max({0} \cup {By(h, sgn, c.l, p) : p \in Extrema(h, Nb, sgn, c.px)})
(* extrema which are far enough of the contour to be counted *)
Counted(h, Nb(_), sgn, P, c) == {p \in Extrema(h, Nb, sgn, c.px) : By(h, sgn, c.l, p) >= 16 * P.nmle}
Acceptable(h, Nb(_), Missing, sgn, P, c) ==
  /\ c.err >= 0 /\ c.err <= P.thr
  /\ c.px \cap Missing = {}
  /\ \A p \in c.px : By(h, sgn, c.l, p) > 0
  /\ Cardinality(c.px) >= P.pmin /\ Cardinality(c.px) <= P.pmax
  /\ LET E == Extrema(h, Nb, sgn, c.px) IN
     /\ E # {}
     /\ Cardinality(E) > 1 => Cardinality(Counted(h, Nb, sgn, P, c)) <= P.mle
  /\ Amplitude(h, Nb, sgn, c) >= 16 * P.nmin /\ Amplitude(h, Nb, sgn, c) > 0
(* the hills first, from the lowest level; then the hollows, from the highest one *)
Before(s1, c1, s2, c2) == s1 > s2 \/ (s1 = s2 /\ (IF s1 = 1 THEN c1.l <= c2.l ELSE c1.l >= c2.l))
Overlap(c1, c2) == c1.px \cap c2.px # {}
(* Out: set of <<sgn, k>>, C[k] the contour *)
Apart(C, Out) == \A a \in Out, b \in Out : a # b => ~Overlap(C[a[2]], C[b[2]])
NoneMissed(C, Good, Out) ==
  \A g \in Good \ Out : \E o \in Out : Overlap(C[o[2]], C[g[2]]) /\ Before(o[1], C[o[2]], g[1], C[g[2]])
Identified(C, Good, Out) == Out \subseteq Good /\ Apart(C, Out) /\ NoneMissed(C, Good, Out)
=============================================================================
