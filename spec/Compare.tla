------------------------------- MODULE Compare -------------------------------
(* Comparison of two datasets from the couples which overlap: groups of eddies of each one.
   A link is <<i, j, s>>: row i of the first, row j of the second (from 0), score s; only links with s >= invalid count.
   An eddy without link: nomatch; with only one link to an eddy with only one link: low, intermediate or high from the score;
   others: multi_match, which is shared by parent (exactly two links, both to eddies with this link only), twin (these two) and complex. *)
EXTENDS Geometry
Kept(L, th) == {l \in L : l[3] >= th.invalid}
Deg(L, side, k) == Cardinality({l \in L : l[side] = k})
Multi(L) == {l \in L : Deg(L, 1, l[1]) >= 2 \/ Deg(L, 2, l[2]) >= 2}
Rank(s, th) == IF s < th.low THEN "low" ELSE IF s < th.high THEN "intermediate" ELSE "high"
Alone(L, th, r) == {<<l[1], l[2]>> : l \in {l \in L \ Multi(L) : Rank(l[3], th) = r}}
IsParent(L, side, k) == LET M == {l \in L : l[side] = k} IN Cardinality(M) = 2 /\ \A l \in M : Deg(L, 3 - side, l[3 - side]) = 1
Parents(L, side) == {k \in {l[side] : l \in L} : IsParent(L, side, k)}
Twins(L, side) == {l[side] : l \in {l \in L : IsParent(L, 3 - side, l[3 - side])}}
InMulti(L, side) == {l[side] : l \in Multi(L)}
NoMatch(L, side, n) == (0..(n - 1)) \ {l[side] : l \in L}
Complex(L, side) == InMulti(L, side) \ (Parents(L, side) \cup Twins(L, side))
Couples(L, th, side, r) == {p[side] : p \in Alone(L, th, r)}
Groups(L0, th, side, n) == LET L == Kept(L0, th) IN
  [nomatch |-> NoMatch(L, side, n), low |-> Couples(L, th, side, "low"), intermediate |-> Couples(L, th, side, "intermediate"), high |-> Couples(L, th, side, "high"),
   multi_match |-> InMulti(L, side), parent |-> Parents(L, side), twin |-> Twins(L, side), complex |-> Complex(L, side)]
(* trajectories (networks) of the second atlas: one with at least nb couples of contours of the same date which overlap *)
CloseIds(id, J, nb) == {v \in {id[k] : k \in DOMAIN id} : Cardinality({l \in J : id[l[2]] = v}) >= nb}
==============================================================================
