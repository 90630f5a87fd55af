-------------------------------- MODULE BoxMC --------------------------------
(* Pixels of a contour are looked for in a window of columns computed modulo the turn. Every column the contour
   covers must be in the window, once. nx columns; the turn is of R columns (R = nx: circular).             *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS MaxN, Turn, Margin
VARIABLES nx, a, b
Circ == nx = Turn
Init == /\ nx \in 1..MaxN \cup {Turn}
        /\ a \in (IF nx = Turn THEN 0..(nx - 1) ELSE -6..(nx + 6)) /\ b \in 1..(IF nx = Turn THEN Turn \div 2 ELSE nx + 2)
Next == UNCHANGED <<nx, a, b>>
(* a contour over columns a .. a+b-1 *)
i0 == a % Turn
i1 == (a + b) % Turn
West(i) == IF i > (nx + Turn) \div 2 THEN i - Turn ELSE i
Mx(x, y) == IF x > y THEN x ELSE y
Start == IF Circ THEN (i0 - Margin) % nx ELSE Mx(West(i0) - Margin, 0)
Stop == IF Circ THEN (i1 + Margin + 1) % nx ELSE Mx(West(i1) + Margin + 1, 0)
Columns == IF Circ THEN IF Start < Stop THEN Start..(Stop - 1) ELSE (Start..(nx - 1)) \cup (0..(Stop - 1))
           ELSE {i \in Start..(Stop - 1) : i < nx}
Covered == {i \in 0..(nx - 1) : \E k \in 0..(b - 1) : IF Circ THEN (a + k) % nx = i ELSE a + k = i}
Found == (b + 2 * Margin + 1 < Turn) => Covered \subseteq Columns
=============================================================================
