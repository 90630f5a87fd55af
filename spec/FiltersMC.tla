------------------------------ MODULE FiltersMC ------------------------------
(* Row by row, with the columns copied on both sides (circular) or unknown ones (not circular), as it is computed. *)
EXTENDS Filters, TLC
CONSTANTS NX, NY, Values, D, E, Circulars, Weights
VARIABLES f, m, K, circ, y, out
vars == <<f, m, K, circ, y, out>>
(* columns of a padded matrix, unknown: mask 1 *)
Wide == 1..(NX + 2 * D)
From(i) == IF i \in (D + 1)..(D + NX) THEN i - D ELSE IF ~circ THEN 0 ELSE IF i <= D THEN NX - ((D - i) % NX) ELSE ((i - D - NX - 1) % NX) + 1
Init == /\ f \in [1..NX -> [1..NY -> Values]] /\ m \in [1..NX -> [1..NY -> {0, 1}]] /\ circ \in Circulars
        /\ \E a, b, w \in Weights : K = [i \in 1..(2 * D + 1) |-> [j \in 1..(2 * E + 1) |-> IF i = D + 1 /\ j = E + 1 THEN 2 ELSE IF i <= D THEN a ELSE IF j <= E THEN b ELSE w]]
        /\ y = 1 /\ out = <<>>
Row(x) == FoldSet(LAMBDA p, s : LET c == From(x + p[1] - 1) r == y + p[2] - E - 1 IN
             IF c = 0 \/ r < 1 \/ r > NY THEN s ELSE IF m[c][r] = 1 THEN s ELSE <<s[1] + K[p[1]][p[2]], s[2] + (K[p[1]][p[2]] * f[c][r])>>,
           <<0, 0>>, (1..(2 * D + 1)) \X (1..(2 * E + 1)))
Step == y <= NY /\ out' = Append(out, [x \in 1..NX |-> Row(x)]) /\ y' = y + 1 /\ UNCHANGED <<f, m, K, circ>>
Spec == Init /\ [][Step]_vars
On == [k \in 1..NY |-> TRUE]
S(x, r) == Sums(f, m, x, r, K, circ)
Right == \A r \in DOMAIN out : \A x \in 1..NX : out[r][x] = <<S(x, r)[1], S(x, r)[2]>>
(* a mean stays between the values which are known, whatever is hidden *)
Between == \A r \in DOMAIN out : \A x \in 1..NX : Known(m, x, r, K, On, 0, S(x, r)) =>
   LET o == out[r][x] V == {f[a][b] : a \in 1..NX, b \in 1..NY} IN o[1] > 0 /\ o[2] >= o[1] * Min(V) /\ o[2] <= o[1] * Max(V)
Turned(g) == [x \in 1..NX |-> g[(x % NX) + 1]]
(* nothing depends on where longitudes start on a circular grid *)
Turns == circ => \A r \in DOMAIN out : \A x \in 1..NX : Sums(Turned(f), Turned(m), x, r, K, TRUE)[2] = out[r][(x % NX) + 1][2]
==============================================================================
