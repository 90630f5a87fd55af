----------------------------- MODULE GeometryMC -----------------------------
(* Every pair of contours of one or two columns of height H, with shifts: laws of the scores;
   the pairs are replayed on the implementation.                                         *)
EXTENDS Geometry, TLC, Json
CONSTANTS H, Turn
VARIABLES p, q, done
Col == {<<a, b>> \in (0..H) \X (0..H) : a < b}
Shapes == {<<c>> : c \in Col} \cup {<<c, d>> : c \in Col, d \in {d \in Col : TRUE}}
Simple(c) == \A k \in 1..(Len(c) - 1) : c[k][1] < c[k + 1][2] /\ c[k + 1][1] < c[k][2]
Init == /\ done = FALSE
        /\ p \in {[x |-> 0, c |-> c] : c \in {s \in Shapes : Simple(s)}}
        /\ q \in {[x |-> x, c |-> c] : x \in {0, 1, Turn - 1}, c \in {s \in Shapes : Simple(s)}}
Next == ~done /\ done' = TRUE /\ UNCHANGED <<p, q>>
Emit == ~done /\ PrintT(<<"SCN", ToJson([p |-> p, q |-> q])>>) /\ done' = TRUE /\ UNCHANGED <<p, q>>
S(m) == Raw(p, q, m, Turn)
Leq(a, b) == a[1] * b[2] <= b[1] * a[2]
Bounded == \A m \in {"union", "minimal", "p1"} : S(m)[1] >= 0 /\ S(m)[1] <= S(m)[2]
Symmetric == \A m \in {"union", "minimal"} : S(m) = Raw(q, p, m, Turn)
Ordered == Leq(S("union"), S("p1")) /\ Leq(S("p1"), S("minimal"))
Same == (S("union")[1] = S("union")[2]) <=> (Cells(p, Turn) = Cells(q, Turn))
Included == (S("p1")[1] = S("p1")[2]) <=> (Cells(q, Turn) \subseteq Cells(p, Turn))
Areas == Area(p) = Cardinality(Cells(p, Turn))
(* the position of the origin of longitudes does not count *)
Shifted == \A d \in 1..2 : Raw([p EXCEPT !.x = @ + d], [q EXCEPT !.x = @ + d], "union", Turn) = S("union")
(* a larger minimum keeps less *)
Monotone == \A m \in {100, 400, 800} : Score(p, q, "union", FALSE, m + 100, Turn)[1] > 0 => Score(p, q, "union", FALSE, m, Turn)[1] > 0
HybridKeeps == Score(p, q, "union", FALSE, 900, Turn)[1] <= Score(p, q, "union", TRUE, 900, Turn)[1]
=============================================================================
