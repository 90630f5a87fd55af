------------------------------ MODULE GridObsMC ------------------------------
(* Percentiles by box, as computed: observations sorted by box, a group is stored when the box changes and at the end. *)
EXTENDS GridObs, TLC
CONSTANTS N, NX, NY, Values, Percents
VARIABLES O, p, left, cur, group, out, done
vars == <<O, p, left, cur, group, out, done>>
ax == [a |-> 0, s |-> 2, n |-> NX]
ay == [a |-> 0, s |-> 2, n |-> NY]
At0(k) == Place(O[k], ax, ay, 0, FALSE)
Rank(k) == At0(k)[2] * (NX + 1) + At0(k)[1]
Init == /\ \E n \in 0..N : O \in [1..n -> {2 * i + 1 : i \in 0..(NX - 1)} \X {2 * j : j \in 0..(NY - 1)} \X Values]
        /\ p \in Percents /\ left = DOMAIN O /\ cur = <<>> /\ group = {} /\ out = [b \in {} |-> 0] /\ done = FALSE
Flush(o) == IF group = {} THEN o ELSE [b \in DOMAIN o \cup {cur} |-> IF b = cur THEN Percent(O, group, p) ELSE o[b]]
Take == /\ left # {}
        /\ LET r == Min({Rank(k) : k \in left}) IN
           \E k \in {k \in left : Rank(k) = r} :
             /\ left' = left \ {k}
             /\ IF cur = At0(k) THEN cur' = cur /\ group' = group \cup {k} /\ out' = out
                ELSE out' = Flush(out) /\ cur' = At0(k) /\ group' = {k}
        /\ UNCHANGED <<O, p, done>>
Finish == left = {} /\ ~done /\ out' = Flush(out) /\ done' = TRUE /\ UNCHANGED <<O, p, left, cur, group>>
Next == Take \/ Finish
Spec == Init /\ [][Next]_vars
Declared == LET B == Boxes(O, ax, ay, 0, FALSE) IN [b \in DOMAIN B |-> Percent(O, B[b], p)]
Right == done => out = Declared
Between == \A b \in DOMAIN out : \E k, l \in DOMAIN O : At0(k) = b /\ At0(l) = b /\ 4 * O[k][3] <= out[b] /\ out[b] <= 4 * O[l][3]
=============================================================================
