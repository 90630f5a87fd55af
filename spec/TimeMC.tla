------------------------------- MODULE TimeMC -------------------------------
(* Advection through grids known at times T: a generator gives the grids one after the other from the first
   useful one, steps are done by batches which stop at the time of the next grid. Every step must use the two
   grids around its time; the run stops when no grid is left.                                            *)
EXTENDS Grid, TLC, Json
CONSTANTS MaxT, MaxB, Releases
VARIABLES T, back, t, nb, pc, gen, g0, g1, todo, now, log, rel
vars == <<T, back, t, nb, pc, gen, g0, g1, todo, now, log, rel>>
Times == {s \in [1..2 -> 0..MaxT] : s[1] < s[2]} \cup {s \in [1..3 -> 0..MaxT] : s[1] < s[2] /\ s[2] < s[3]}
Sgn == IF back THEN -1 ELSE 1
(* grids in the order of the generator *)
Order == IF back THEN [k \in 1..Len(T) |-> (Len(T) + 1) - k] ELSE [k \in 1..Len(T) |-> k]
Useful(k) == IF back THEN ~(k > 1 /\ T[k - 1] >= t) ELSE ~(k < Len(T) /\ T[k + 1] <= t)
Seq0 == SelectSeq(Order, LAMBDA k : Useful(k))
Init == /\ T \in Times /\ back \in BOOLEAN /\ nb \in 1..MaxB
        /\ t \in T[1]..T[Len(T)] /\ (IF back THEN t > T[1] ELSE t < T[Len(T)])
        /\ pc = "open" /\ gen = <<>> /\ g0 = 0 /\ g1 = 0 /\ todo = <<>> /\ now = t /\ log = <<>> /\ rel = 0
Open == /\ pc = "open"
        /\ IF Len(Seq0) < 2 THEN pc' = "stop" /\ UNCHANGED <<gen, g0, g1>>
           ELSE g0' = Seq0[1] /\ g1' = Seq0[2] /\ gen' = Tail(Tail(Seq0)) /\ pc' = "go"
        /\ UNCHANGED <<T, back, t, nb, todo, now, log, rel>>
Go0 == /\ pc = "go" /\ rel < Releases
       /\ todo' = [k \in 1..nb |-> now + Sgn * (k - 1)] /\ pc' = "steps"
       /\ UNCHANGED <<T, back, t, nb, gen, g0, g1, now, log, rel>>
Past(x) == IF back THEN x <= T[g1] ELSE x >= T[g1]
Steps ==
  /\ pc = "steps"
  /\ UNCHANGED <<T, back, t, nb>>
  /\ IF todo = <<>> THEN pc' = "go" /\ now' = now + Sgn * nb /\ rel' = rel + 1 /\ UNCHANGED <<gen, g0, g1, todo, log>>
     ELSE IF Past(todo[1])
     THEN IF gen = <<>> THEN pc' = "stop" /\ UNCHANGED <<gen, g0, g1, todo, now, log, rel>>
          ELSE g0' = g1 /\ g1' = gen[1] /\ gen' = Tail(gen) /\ UNCHANGED <<pc, todo, now, log, rel>>
     ELSE LET b == SelectSeq(todo, LAMBDA x : ~Past(x)) IN
          /\ log' = log \o [k \in DOMAIN b |-> <<b[k], g0, g1>>]
          /\ todo' = [k \in 1..(Len(todo) - Len(b)) |-> todo[k + Len(b)]]
          /\ UNCHANGED <<pc, gen, g0, g1, now, rel>>
Next == Open \/ Go0 \/ Steps
Around == \A k \in DOMAIN log : <<log[k][2], log[k][3]>> \in Bracket(T, log[k][1], back)
EveryStep == \A k \in DOMAIN log : log[k][1] = t + Sgn * (k - 1)
Clock == now = t + Sgn * nb * rel
(* a release needs currents until its end *)
StopsOnlyAtTheEnd == pc = "stop" => LET e == now + Sgn * nb IN e < T[1] \/ e > T[Len(T)]
Released == pc = "go" => now >= T[1] /\ now <= T[Len(T)] /\ Len(log) = nb * rel
Emit == pc = "open" /\ PrintT(<<"SCN", ToJson([T |-> T, back |-> back, t |-> t, nb |-> nb])>>) /\ pc' = "x" /\ UNCHANGED <<T, back, t, nb, gen, g0, g1, todo, now, log, rel>>
=============================================================================
