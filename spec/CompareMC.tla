------------------------------ MODULE CompareMC ------------------------------
(* Every weighted bipartite graph; links are added one at a time. *)
EXTENDS Compare
Vals(f) == {f[k] : k \in DOMAIN f}
CONSTANTS N, M, S, INV, LOW, HIGH
VARIABLES L
Th == [invalid |-> INV, low |-> LOW, high |-> HIGH]
Init == L = {}
Add == \E i \in 0..(N - 1), j \in 0..(M - 1), s \in 0..S : (IF \A l \in L : l[1] # i \/ l[2] # j THEN TRUE ELSE FALSE) /\ L' = L \cup {<<i, j, s>>}
Spec == Init /\ [][Add]_L
K == Kept(L, Th)
G(side) == Groups(L, Th, side, IF side = 1 THEN N ELSE M)
Flip == {<<l[2], l[1], l[3]>> : l \in L}
Top(g) == <<g.nomatch, g.low, g.intermediate, g.high, g.multi_match>>
Sub(g) == <<g.parent, g.twin, g.complex>>
Apart(f) == \A a, b \in DOMAIN f : a # b => f[a] \cap f[b] = {}
Partition == /\ Apart(Top(G(1))) /\ UNION Vals(Top(G(1))) = 0..(N - 1) /\ Apart(Top(G(2))) /\ UNION Vals(Top(G(2))) = 0..(M - 1)
SubPartition == \A side \in 1..2 : Apart(Sub(G(side))) /\ UNION Vals(Sub(G(side))) = G(side).multi_match
Symmetric == Groups(Flip, Th, 1, M) = G(2) /\ Groups(Flip, Th, 2, N) = G(1)
(* a parent has two twins in the other dataset, of it only *)
Families == /\ Cardinality(G(1).twin) = 2 * Cardinality(G(2).parent) /\ Cardinality(G(2).twin) = 2 * Cardinality(G(1).parent)
            /\ \A k \in {"low", "intermediate", "high"} : Cardinality(G(1)[k]) = Cardinality(G(2)[k])
(* what is under the threshold plays no part *)
Deaf == \A side \in 1..2 : G(side) = Groups(K, Th, side, IF side = 1 THEN N ELSE M)
(* an eddy depends on its own family only: links of others removed, it keeps its group *)
Near(i) == LET J == {l[2] : l \in {l \in K : l[1] = i}} I == {l[1] : l \in {l \in K : l[2] \in J}} J2 == {l[2] : l \in {l \in K : l[1] \in I}} IN {l \in K : l[2] \in J2}
Local == \A i \in 0..(N - 1) : LET g == Groups(Near(i), Th, 1, N) IN \A k \in DOMAIN g : (i \in g[k]) <=> (i \in G(1)[k])
==============================================================================
