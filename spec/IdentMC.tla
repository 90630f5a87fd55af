------------------------------ MODULE IdentMC ------------------------------
(* The search for eddies on fields along a line (all of them up to N nodes), step by step: one level after the other,
   hills upwards then hollows downwards; what is chosen reserves its nodes and its inner contours are used up.
   The clauses say what comes out of it, and that nothing else satisfies them.                                        *)
EXTENDS Identification, TLC
CONSTANTS N, K, Mles, Nmins, Pmins, Pmaxs, Bads
VARIABLES h, miss, bad, P, sgn, l, reserved, used, Out
vars == <<h, miss, bad, P, sgn, l, reserved, used, Out>>
Nodes == 1..N
Fields == {f \in [Nodes -> {(16 * k) + 8 : k \in 0..(K - 1)}] : \A p \in 1..(N - 1) : f[p] # f[p + 1]}
(* closed contours of level v: both ends are crossed from known to known nodes *)
Cross(p, v) == (h[p] > 16 * v) # (h[p + 1] > 16 * v) /\ p \notin miss /\ (p + 1) \notin miss
Lines == {c \in {[l |-> v, px |-> a..b, err |-> IF bad = <<v, a>> THEN 9999 ELSE 0] : v \in 1..(K - 1), a \in 2..(N - 1), b \in 2..(N - 1)} :
            /\ c.px # {} /\ LET a == CHOOSE x \in c.px : \A y \in c.px : x <= y  b == Max(c.px)
                            IN Cross(a - 1, c.l) /\ Cross(b, c.l) /\ (h[a - 1] > 16 * c.l) = (h[b + 1] > 16 * c.l)}
Nb(p) == {r \in {p - 1, p + 1} \cap Nodes : r \notin miss}
NbNow(p) == {r \in Nb(p) : r \notin reserved}
Init == /\ h \in Fields
        /\ miss \in {{}} \cup {{p} : p \in Nodes}
        /\ bad \in {<<0, 0>>} \cup (IF Bads THEN (1..(K - 1)) \X (2..(N - 1)) ELSE {})
        /\ P \in [mle : Mles, nmin : Nmins, nmle : {0, 1}, pmin : Pmins, pmax : Pmaxs, thr : {55}]
        /\ sgn = 1 /\ l = 1 /\ reserved = {} /\ used = {} /\ Out = {}
Candidates == {c \in Lines : c.l = l /\ c \notin used /\ Acceptable(h, NbNow, miss \cup reserved, sgn, P, c)}
Inner(c) == {d \in Lines : sgn * (d.l - c.l) >= 0 /\ d.px \subseteq c.px}
Level ==
  /\ sgn # 0
  /\ LET cs == Candidates IN
     /\ Out' = Out \cup {<<sgn, c>> : c \in cs}
     /\ reserved' = reserved \cup UNION {c.px : c \in cs}
     /\ used' = used \cup UNION {Inner(c) : c \in cs}
  /\ IF sgn = 1 THEN IF l < K - 1 THEN sgn' = 1 /\ l' = l + 1 ELSE sgn' = -1 /\ l' = K - 1
     ELSE IF l > 1 THEN sgn' = -1 /\ l' = l - 1 ELSE sgn' = 0 /\ l' = l
  /\ UNCHANGED <<h, miss, bad, P>>
Next == Level
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* records as in the traces: C is the function itself *)
C == [c \in Lines |-> c]
Good == {g \in {-1, 1} \X Lines : Acceptable(h, Nb, miss, g[1], P, g[2])}
Done == sgn = 0
Right == Done => Identified(C, Good, Out)
AlwaysApart == Apart(C, Out) /\ Out \subseteq Good
Only == Done => \A S \in SUBSET Good : Identified(C, Good, S) => S = Out
(* an eddy does not hide another of the same sign which it does not enclose *)
Hides == Done => \A g \in Good : g \notin Out => \E o \in Out : (o[1] = g[1] /\ g[2].px \subseteq C[o[2]].px) \/ (o[1] = 1 /\ g[1] = -1)
Ends == <>Done
=============================================================================
