------------------------------ MODULE Matching ------------------------------
(* Association of the observations of one file with those of the next one.
   m = [na, nb, adm, cost]: adm[i][j] tells whether i may be followed by j and
   cost[i][j] how bad this is (smaller is better).  Rows are 0-based in links.      *)
EXTENDS Integers, Sequences, FiniteSets

I(m) == 0..(m.na - 1)
J(m) == 0..(m.nb - 1)
Adm(m, i, j) == m.adm[i + 1][j + 1]
Cost(m, i, j) == m.cost[i + 1][j + 1]

(* the algorithm, as a transition: take any cheapest pair whose ends are both free  *)
Free(m, L) == {p \in I(m) \X J(m) : Adm(m, p[1], p[2]) /\ \A q \in L : q[1] # p[1] /\ q[2] # p[2]}
Take(m, L, p) == /\ p \in Free(m, L)
                 /\ \A q \in Free(m, L) : Cost(m, p[1], p[2]) <= Cost(m, q[1], q[2])

(* what is required of the result, with a tolerance on ties                         *)
InRange(m, L) == \A p \in L : p[1] \in I(m) /\ p[2] \in J(m)
OneToOne(L) == \A p, q \in L : (p[1] = q[1] \/ p[2] = q[2]) => p = q
Admissible(m, L) == \A p \in L : Adm(m, p[1], p[2])
Maximal(m, L) == Free(m, L) = {}
NoBlocking(m, L, tol) ==
  \A i \in I(m) : \A j \in J(m) :
     (Adm(m, i, j) /\ <<i, j>> \notin L) =>
        \E q \in L : (q[1] = i \/ q[2] = j) /\ Cost(m, q[1], q[2]) <= Cost(m, i, j) + tol

(* Chelton's rule: closest admissible one for each start; when several starts share
   an end the one of largest amplitude keeps it.                                    *)
Closest(m, i, j, tol) == \A k \in J(m) : Adm(m, i, k) => Cost(m, i, j) <= Cost(m, i, k) + tol
HasAny(m, i) == \E j \in J(m) : Adm(m, i, j)
CheltonOK(m, amp, L, tol) ==
  /\ \A p \in L : Closest(m, p[1], p[2], tol)
  /\ \A i \in I(m) : HasAny(m, i) =>
       \E j \in J(m) : /\ Adm(m, i, j) /\ Closest(m, i, j, tol)
                       /\ \E q \in L : q[2] = j /\ amp[q[1] + 1] >= amp[i + 1]
=============================================================================
