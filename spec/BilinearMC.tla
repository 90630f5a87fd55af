----------------------------- MODULE BilinearMC -----------------------------
(* What bilinear interpolation guarantees, for every field of a few values and every mask on a small grid:
   exact on nodes, between the values of the corners, the same from both sides of the side of a cell, never
   from a missing corner, turn after turn on a circle.                                                *)
EXTENDS Grid, TLC
CONSTANTS NX, NY, Vals, Fr
VARIABLES g, f, px, py
Init == /\ g \in [nx : {NX}, ny : {NY}, circ : BOOLEAN, m : [1..NX -> [1..NY -> {0, 1}]]]
        /\ f \in [1..NX -> [1..NY -> Vals]]
        /\ px \in {16 * i + k : i \in -1..NX, k \in Fr} /\ py \in {16 * j + k : j \in -1..NY, k \in Fr}
Next == UNCHANGED <<g, f, px, py>>
i0 == px \div 16
j0 == py \div 16
vs == {V(g, f, w[1], w[2]) : w \in Corners(i0, j0)}
Got == Bilinear(g, f, px, py)
Hull == Cell(g, i0, j0) => \A v \in Got : v # NaN => v <= 256 * Max(vs) /\ v >= 256 * Min(vs)
Node == (px % 16 = 0 /\ py % 16 = 0 /\ Cell(g, i0, j0)) => Got = {256 * V(g, f, i0, j0)}
NoMissing == (px % 16 # 0 /\ py % 16 # 0) => (Got = {NaN} <=> ~Cell(g, i0, j0))
Turns == g.circ => Got = Bilinear(g, f, px + 16 * g.nx, py)
NearNode == Nearest(g, f, px, py) \subseteq {NaN} \cup {256 * v : v \in {f[i][j] : i \in 1..NX, j \in 1..NY}}
(* half way between the two columns next to it *)
Middle == (px % 16 = 8 /\ Cell(g, i0, j0)) =>
            2 * Bil(g, f, px, py) = Bil(g, f, 16 * i0, py) + Bil(g, f, 16 * (i0 + 1), py)
=============================================================================
