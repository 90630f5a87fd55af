----------------------------- MODULE SegmentsMC -----------------------------
(* How groups are labelled pair of files by pair of files, and how segments are followed one
   observation after the other, for every set of intervals on a few dates.                *)
EXTENDS Segments, TLC, Json
CONSTANTS L, PerDay, Days, W
VARIABLES o, pc, st
Iv == {<<a, b>> \in (0..L) \X (0..L) : a < b}
DaySets == UNION {kSubset(k, Iv) : k \in 0..PerDay}
OrdIv(s) == SetToSortSeq(s, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
Flatten(D) == LET one(d) == [k \in DOMAIN OrdIv(D[d]) |-> [d |-> d, p |-> [x |-> 0, c |-> <<OrdIv(D[d])[k]>>]]]
                  go[d \in 0..Len(D)] == IF d = 0 THEN <<>> ELSE go[d - 1] \o one(d) IN go[Len(D)]
M == Matrix(o, "union", FALSE, 0, 360)
N == Len(o)
All == DOMAIN o
Init == /\ \E D \in [1..Days -> DaySets] : o = Flatten(D)
        /\ pc = "pairs"
        /\ st = [i |-> 1, j |-> 2, gr |-> [a \in All |-> 0], free |-> 1, merge |-> {}]
(* ---- groups *)
PairSeq(i, j) ==
  SetToSortSeq({e \in All \X All : o[e[1]].d = i /\ o[e[2]].d = j /\ Some(M[e[1]][e[2]])}, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
RECURSIVE Assign(_, _)
Assign(gr, q) == IF q = <<>> THEN gr ELSE Assign([gr EXCEPT ![q[1][1]] = q[1][2]], Tail(q))
Batch(s) ==
  LET q == PairSeq(s.i, s.j) g0 == s.gr
      n1 == SelectSeq(q, LAMBDA e : g0[e[1]] = 0 /\ g0[e[2]] = 0)
      g1 == Assign(g0, [k \in 1..(2 * Len(n1)) |-> LET e == n1[(k + 1) \div 2] IN <<IF k % 2 = 1 THEN e[2] ELSE e[1], s.free + ((k + 1) \div 2) - 1>>])
      n2 == SelectSeq(q, LAMBDA e : g1[e[1]] # 0 /\ g1[e[2]] = 0)
      g2 == Assign(g1, [k \in DOMAIN n2 |-> <<n2[k][2], g1[n2[k][1]]>>])
      n3 == SelectSeq(q, LAMBDA e : g2[e[1]] = 0 /\ g2[e[2]] # 0)
      g3 == Assign(g2, [k \in DOMAIN n3 |-> <<n3[k][1], g2[n3[k][2]]>>]) IN
  [s EXCEPT !.gr = g3, !.free = @ + Len(n1), !.merge = @ \cup {<<g3[q[k][1]], g3[q[k][2]]>> : k \in {k \in DOMAIN q : g3[q[k][1]] # g3[q[k][2]]}}]
Pairs ==
  /\ pc = "pairs"
  /\ IF st.i >= Days THEN pc' = "merge" /\ UNCHANGED st
     ELSE IF st.j > Days \/ st.j - st.i > W THEN st' = [st EXCEPT !.i = @ + 1, !.j = st.i + 2] /\ UNCHANGED pc
     ELSE st' = [Batch(st) EXCEPT !.j = @ + 1] /\ UNCHANGED pc
  /\ UNCHANGED o
Merge ==
  /\ pc = "merge"
  /\ IF st.merge = {} THEN pc' = "grouped" /\ UNCHANGED st
     ELSE LET e == CHOOSE e \in st.merge : TRUE
              T(g) == IF g = e[1] THEN e[2] ELSE g IN
          /\ st' = [st EXCEPT !.gr = [a \in All |-> T(st.gr[a])], !.merge = {<<T(f[1]), T(f[2])>> : f \in st.merge \ {e}}]
          /\ UNCHANGED pc
  /\ UNCHANGED o
(* ---- segments: every observation in one group *)
Begin ==
  /\ pc = "grouped" /\ pc' = "follow"
  /\ st' = [k |-> 1, cur |-> 0, tid |-> 0, used |-> {}, sg |-> [a \in All |-> 0], nx |-> [a \in All |-> 0], pv |-> [a \in All |-> 0],
            nc |-> [a \in All |-> <<0, 1>>], pcost |-> [a \in All |-> <<0, 1>>]]
  /\ UNCHANGED o
First(S) == CHOOSE a \in S : \A b \in S : a <= b
Follow ==
  /\ pc = "follow"
  /\ UNCHANGED o
  /\ IF st.cur = 0
     THEN IF st.k > N THEN pc' = "done" /\ UNCHANGED st
          ELSE IF st.k \in st.used THEN st' = [st EXCEPT !.k = @ + 1] /\ UNCHANGED pc
          ELSE st' = [st EXCEPT !.cur = st.k, !.tid = @ + 1] /\ UNCHANGED pc
     ELSE
       LET a == st.cur f == Forward(o, M, All, W, a)
           s1 == [st EXCEPT !.used = @ \cup {a}, !.sg[a] = st.tid]
           (* the segment is over: where does its first observation come from? *)
           Over(s) == LET b == Backward(o, M, All, W, s.k) IN
                      IF b = {} THEN [s EXCEPT !.cur = 0, !.k = @ + 1]
                      ELSE [s EXCEPT !.cur = 0, !.k = @ + 1, !.pcost[s.k] = M[First(b)][s.k], !.pv[s.k] = First(b)] IN
       /\ UNCHANGED pc
       /\ st' = IF f = {} THEN Over(s1)
                ELSE LET t == First(f) c == M[a][t]
                         s2 == [s1 EXCEPT !.nx[a] = t, !.nc[a] = c, !.pcost[t] = IF Some(@) /\ ~Gt(c, @) THEN @ ELSE c] IN
                     IF t \notin st.used THEN [s2 EXCEPT !.pv[t] = a, !.cur = t]
                     ELSE IF s2.nc[a][1] * s2.pcost[t][2] = s2.pcost[t][1] * s2.nc[a][2]
                          THEN Over([s2 EXCEPT !.sg = [b \in All |-> IF b >= t /\ s2.sg[b] = s2.sg[t] THEN st.tid ELSE s2.sg[b]], !.pv[t] = a])
                          ELSE Over(s2)
Next == Pairs \/ Merge \/ Begin \/ Follow
Emit == pc = "pairs" /\ PrintT(<<"SCN", ToJson([o |-> o])>>) /\ pc' = "x" /\ UNCHANGED <<o, st>>
GroupedWell == pc = "grouped" => Grouped(st.gr, Links(o, M, W))
SegmentedWell == pc = "done" => Segmented(o, M, All, W, st) /\ WellFormed(o, All, st)
CostsWell == pc = "done" => \A a \in All : /\ st.nx[a] # 0 => st.nc[a] = M[a][st.nx[a]]
                                           /\ st.pv[a] # 0 => ~Gt(M[st.pv[a]][a], st.pcost[a]) /\ ~Gt(st.pcost[a], M[st.pv[a]][a])
=============================================================================
