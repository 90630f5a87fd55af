------------------------------ MODULE AdvectMC ------------------------------
(* Particles moved one after the other with one memory of the last cell read for all of them, against
   particles moved alone. Positions are in half cells of a line (or circle) of cells; a cell is masked
   (99) or has a speed in half cells by step; a step uses the speed at the middle of the step.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, NP, Steps
VARIABLES cells, circ, start, pc, k, s, pos, cache, mk, sp, out
Masked == 99
Speeds == {-3, -1, 0, 2}
vars == <<cells, circ, start, pc, k, s, pos, cache, mk, sp, out>>
CellOf(x) == IF circ THEN (x \div 2) % N ELSE x \div 2
Read(i) == IF i \in 0..(N - 1) THEN cells[i] ELSE Masked
(* ---- alone *)
Gone == 1000
RECURSIVE Alone(_, _)
Alone(x, n) ==
  IF n = 0 THEN x ELSE
  LET a == Read(CellOf(x)) IN IF a = Masked THEN Gone ELSE
  LET b == Read(CellOf(x + (a \div 2))) IN IF b = Masked THEN Gone ELSE Alone(x + b, n - 1)
(* ---- with a memory *)
Init == /\ cells \in [0..(N - 1) -> Speeds \cup {Masked}] /\ circ \in BOOLEAN
        /\ start \in [1..NP -> -1..(2 * N)]
        /\ pc = "first" /\ k = 1 /\ s = 0 /\ pos = start[1] /\ cache = -100 /\ mk = FALSE /\ sp = 0 /\ out = <<>>
Load(i) == IF i = cache THEN UNCHANGED <<cache, mk, sp>>
           ELSE /\ cache' = i /\ mk' = (Read(i) = Masked)
                /\ sp' = IF Read(i) = Masked THEN sp ELSE Read(i)
Over(x) == /\ out' = Append(out, x)
           /\ IF k = NP THEN pc' = "done" /\ UNCHANGED <<k, s, pos>>
              ELSE pc' = "first" /\ k' = k + 1 /\ s' = 0 /\ pos' = start[k + 1]
(* speed where the particle is *)
First == /\ pc = "first" /\ UNCHANGED <<cells, circ, start>>
         /\ Load(CellOf(pos))
         /\ IF mk' THEN Over(Gone) ELSE pc' = "second" /\ UNCHANGED <<k, s, pos, out>>
(* speed at the middle of the step: the memory always holds the cell of the first one here *)
Second == /\ pc = "second" /\ UNCHANGED <<cells, circ, start>>
          /\ LET x == pos + (sp \div 2) IN
             /\ Load(CellOf(x))
             /\ IF mk' THEN Over(Gone)
                ELSE IF s + 1 = Steps THEN Over(pos + sp')
                ELSE pc' = "first" /\ pos' = pos + sp' /\ s' = s + 1 /\ UNCHANGED <<k, out>>
Next == First \/ Second
Independent == \A i \in DOMAIN out : out[i] = Alone(start[i], Steps)
All == pc = "done" => Len(out) = NP
MemoryWell == cache # -100 => mk = (Read(cache) = Masked) /\ (~mk => sp = Read(cache))
Ends == <>(pc = "done")
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
=============================================================================
