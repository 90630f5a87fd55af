------------------------------- MODULE AlongMC -------------------------------
(* Rows are inserted one at a time at the first place where one is missing, until nothing is missing. *)
EXTENDS Along, TLC
CONSTANTS N, T, DT2
VARIABLES R, S, start
vars == <<R, S, start>>
Sound(s) == \A i \in 1..(Len(s) - 1) : s[i].g <= s[i + 1].g /\ (SameGroup(s, i, i + 1) => s[i].t < s[i + 1].t)
Init == /\ \E n \in 0..N : R \in {s \in [1..n -> [g : 0..2, t : 0..T, v : {FALSE}]] : Sound(s)}
        /\ S = R /\ start = TRUE
Need(s) == {i \in Follow(s) : 2 * (s[i + 1].t - s[i].t) > DT2 /\ MissingAfter(s, i, DT2) > 0}
(* whole delays: the new row is one delay after *)
Whole == DT2 % 2 = 0 /\ \A i \in Follow(R) : (R[i + 1].t - R[i].t) % (DT2 \div 2) = 0
Insert == /\ Whole /\ Need(S) # {}
          /\ LET i == Min(Need(S)) IN S' = SubSeq(S, 1, i) \o <<[g |-> S[i].g, t |-> S[i].t + (DT2 \div 2), v |-> TRUE]>> \o SubSeq(S, i + 1, Len(S))
          /\ UNCHANGED <<R, start>>
Spec == Init /\ [][Insert]_vars
Final == Whole /\ Need(S) = {}
(* what is declared at once is what insertion gives; nothing is missing any more; rows of the table are kept in order *)
Declared == LET L == Filled(R, DT2) IN [k \in DOMAIN L |-> [g |-> R[L[k][1]].g, t |-> IF L[k][2] = 0 THEN R[L[k][1]].t ELSE Between(R[L[k][1]].t, R[L[k][1] + 1].t, L[k][2], L[k][3]) \div (L[k][3] + 1), v |-> L[k][2] > 0]]
Right == Final => S = Declared
Complete == Final => Missing(S, DT2) = <<>> /\ Sound(S) /\ SelectSeq(S, LAMBDA r : ~r.v) = R
Counted == Len(Filled(R, DT2)) = Len(R) + Len(Missing(R, DT2))
(* smoothing with a window shorter than a delay does nothing, groups are apart *)
Same == \A i \in DOMAIN R : R[i].g # 0 => Smooth2(R, i, 0, [k \in DOMAIN R |-> k]) = 2 * i
Apart == \A i \in DOMAIN R : R[i].g # 0 => LET m == Smooth2(R, i, T, [k \in DOMAIN R |-> R[k].g]) IN m = 2 * R[i].g
==============================================================================
