----------------------------- MODULE DatasetMC -----------------------------
(* Design: every small dataset and every selection with its options: laws which the
   selections obey.  The same states are printed as scenarios for the real code.      *)
EXTENDS Dataset, TLC, Json
CONSTANTS N, Gap
VARIABLES D, M, o, done
(* sorted track ids, starting at 0 or later, with absent ids *)
Ids == {s \in [1..N -> 0..(N + Gap)] : \A i \in 1..(N - 1) : s[i] <= s[i + 1] /\ s[i + 1] - s[i] <= 1 + Gap}
Rows(s, v) == [i \in 1..N |-> [tr |-> s[i], v |-> v[i], n |-> i - Min({j \in 1..N : s[j] = s[i]}), t |-> i, x |-> i, y |-> 0]]
Init == /\ \E s \in {s \in Ids : s[1] <= Gap} : \E v \in [1..N -> {0, 1}] : D = Rows(s, v)
        /\ M \in SUBSET (1..N)
        /\ o \in [full : BOOLEAN, inc : BOOLEAN, rv : BOOLEAN]
        /\ done = FALSE
S == Select(D, M, o)
Sub(Q) == LET q == Ordered(Q) IN [k \in DOMAIN q |-> D[q[k]]]
Next == ~done /\ done' = TRUE /\ UNCHANGED <<D, M, o>>
Emit == /\ ~done
        /\ \E c \in BOOLEAN :
             PrintT(<<"SCN", ToJson([tr |-> [i \in 1..N |-> D[i].tr], v |-> [i \in 1..N |-> D[i].v],
                                     m |-> SetToSortSeq({i - 1 : i \in M}, <), full |-> o.full, inc |-> o.inc, rv |-> o.rv, c |-> c])>>)
        /\ done' = TRUE /\ UNCHANGED <<D, M, o>>
(* laws *)
WholeTracks == (o.full \/ o.inc) => S = Closed(D, S)
OnlyFull == (o.inc /\ ~o.full) => S \subseteq M
CoversMask == (o.full /\ ~o.rv) => M \subseteq S
NoVirtualOnly == (o.full /\ o.rv) => \A k \in {D[i].tr : i \in S} : \E i \in M : D[i].tr = k /\ D[i].v = 0
Plain == (~o.full /\ ~o.inc) => S = M
(* nothing is lost between a track and its length *)
LengthKept == (o.full \/ o.inc) => \A k \in {D[i].tr : i \in S} : Nb(Sub(S), k) = Nb(D, k)
Stable == Contiguous(Sub(S)) /\ Sorted(Sub(S))
WholeComplete == (o.full \/ o.inc) => Complete(Sub(S))
(* selecting again with the same option changes nothing *)
Again == LET E == Sub(S) IN Select(E, DOMAIN E, [o EXCEPT !.rv = FALSE]) = DOMAIN E
FirstLast == Complete(D) => /\ Result(D, "first", o) = {i \in 1..N : D[i].n = 0}
                            /\ Cardinality(Result(D, "last", o)) = Cardinality(Tracks(D))
=============================================================================
