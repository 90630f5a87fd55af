----------------------------- MODULE MatchingMC -----------------------------
(* Every table of costs of NA x NB pairs with values 1..Values (0: not admissible),
   solved by the greedy transition system in every order ties allow.               *)
EXTENDS Matching, TLC, Json
CONSTANTS NA, NB, Values
VARIABLES cost, L, done
M == [na |-> NA, nb |-> NB, cost |-> cost, adm |-> [i \in 1..NA |-> [j \in 1..NB |-> cost[i][j] > 0]]]
Init == /\ cost \in [1..NA -> [1..NB -> 0..Values]] /\ L = {} /\ done = FALSE
Pick == \E p \in I(M) \X J(M) : Take(M, L, p) /\ L' = L \union {p} /\ UNCHANGED <<cost, done>>
Stop == Free(M, L) = {} /\ ~done /\ done' = TRUE /\ UNCHANGED <<cost, L>>
Next == Pick \/ Stop
Spec == Init /\ [][Next]_<<cost, L, done>> /\ WF_<<cost, L, done>>(Next)
Sound == OneToOne(L) /\ Admissible(M, L)
Result == done => Maximal(M, L) /\ NoBlocking(M, L, 0)
Ends == <>done
(* without ties the requirement determines the result *)
Distinct == \A i, k \in I(M) : \A j, l \in J(M) :
   (Adm(M, i, j) /\ Adm(M, k, l) /\ <<i, j>> # <<k, l>>) => Cost(M, i, j) # Cost(M, k, l)
Unique == (done /\ Distinct) =>
  \A X \in SUBSET (I(M) \X J(M)) :
     (OneToOne(X) /\ Admissible(M, X) /\ NoBlocking(M, X, 0)) => X = L
(* generator *)
Emit == /\ ~done /\ PrintT(<<"SCN", ToJson(cost)>>) /\ done' = TRUE /\ UNCHANGED <<cost, L>>
=============================================================================
