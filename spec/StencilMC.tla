----------------------------- MODULE StencilMC -----------------------------
(* The derivative of a row through a buffer of nine values which rolls along the row, against the
   definition (Diff840), for every mask, width of stencil, circular or not.                     *)
EXTENDS Grid, TLC
CONSTANTS Sizes
VARIABLES n, m, hw, circ, i, buf, out
(* values such that no two stencils give the same *)
H(k) == 7 * k * k * k - 11 * k * k + 3 * k
h == [k \in 1..n |-> H(k)]
Item(k) == IF k >= 1 /\ k <= n THEN <<h[k], m[k]>> ELSE IF circ THEN <<RowV(h, k), m[((k - 1) % n) + 1]>> ELSE <<0, 1>>
Init == /\ n \in Sizes /\ m \in [1..n -> {0, 1}] /\ hw \in 1..4 /\ circ \in BOOLEAN /\ i = 0
        (* b[5] is the current one *)
        /\ buf = [k \in 1..9 |-> Item(k - 5)] /\ out = <<>>
Of(b) ==
  LET v(k) == b[5 + k][1] ok(k) == b[5 + k][2] = 0 d(k) == v(k) - v(-k) IN
  IF ~ok(0) THEN NaN
  ELSE IF ~ok(1) /\ ~ok(-1) THEN NaN
  ELSE IF ~ok(-1) THEN 840 * (v(1) - v(0))
  ELSE IF ~ok(1) THEN 840 * (v(0) - v(-1))
  ELSE IF ~ok(2) \/ ~ok(-2) \/ hw = 1 THEN 420 * d(1)
  ELSE IF ~ok(3) \/ ~ok(-3) \/ hw = 2 THEN 70 * (8 * d(1) - d(2))
  ELSE IF ~ok(4) \/ ~ok(-4) \/ hw = 3 THEN 14 * ((d(3) - 9 * d(2)) + 45 * d(1))
  ELSE ((672 * d(1) - 168 * d(2)) + 32 * d(3)) - 3 * d(4)
Next == /\ i < n /\ i' = i + 1
        /\ buf' = [k \in 1..9 |-> IF k < 9 THEN buf[k + 1] ELSE Item(i + 5)]
        /\ out' = Append(out, Of(buf'))
        /\ UNCHANGED <<n, m, hw, circ>>
Exact == \A k \in DOMAIN out : out[k] = Diff840(h, m, circ, hw, k)
(* a missing value stays missing, a lonely one gives nothing; the derivative of a line is its slope *)
Missing == \A k \in DOMAIN out : out[k] = NaN <=> (m[k] = 1 \/ (~RowOk(m, circ, k - 1) /\ ~RowOk(m, circ, k + 1)))
Slope == ~circ => \A k \in DOMAIN out : LET s == Diff840([a \in 1..n |-> 5 * a + 2], m, FALSE, hw, k) IN s \in {NaN, 4200}
(* going the other way changes the sign *)
Mirror == ~circ => \A k \in DOMAIN out :
            LET r(s) == [a \in 1..n |-> s[(n + 1) - a]] w == Diff840(r(h), r(m), FALSE, hw, (n + 1) - k) IN
            IF out[k] = NaN THEN w = NaN ELSE w = -out[k]
=============================================================================
