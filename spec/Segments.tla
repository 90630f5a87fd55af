------------------------------ MODULE Segments ------------------------------
(* Networks of eddies: groups of eddies which overlap from file to file, and segments of a group.
   An observation is [d: date, p: contour]; M: matrix of scores (fractions, 0 = no overlap).   *)
EXTENDS Geometry
Gt(a, b) == a[1] * b[2] > b[1] * a[2]
Some(s) == s[1] > 0
Matrix(o, mode, hybrid, m, turn) == [a \in DOMAIN o |-> [b \in DOMAIN o |-> IF o[a].d < o[b].d THEN Score(o[a].p, o[b].p, mode, hybrid, m, turn) ELSE <<0, 1>>]]

(* groups: observations which overlap, directly or not, at w dates or less *)
Links(o, M, w) == {e \in (DOMAIN o) \X (DOMAIN o) : o[e[2]].d > o[e[1]].d /\ o[e[2]].d - o[e[1]].d <= w /\ Some(M[e[1]][e[2]])}
RECURSIVE Spread(_, _)
Spread(S, E) == LET T == S \cup {e[2] : e \in {e \in E : e[1] \in S}} \cup {e[1] : e \in {e \in E : e[2] \in S}} IN IF T = S THEN S ELSE Spread(T, E)
Component(a, E) == Spread({a}, E)
(* gr: label of each observation, 0 for those which overlap nothing *)
Grouped(gr, E) ==
  /\ \A a \in DOMAIN gr : (gr[a] = 0) <=> (\A e \in E : a \notin {e[1], e[2]})
  /\ \A a \in DOMAIN gr : gr[a] # 0 => {b \in DOMAIN gr : gr[b] = gr[a]} = Component(a, E)

(* segments of the observations G of one group *)
Best(S, f(_)) == {a \in S : \A b \in S : ~Gt(f(b), f(a))}
Forward(o, M, G, w, a) ==
  LET on(d) == {b \in G : o[b].d = d /\ Some(M[a][b])}
      ds == {d \in (o[a].d + 1)..(o[a].d + w) : on(d) # {}} IN
  IF ds = {} THEN {} ELSE LET Sc(b) == M[a][b] IN Best(on(Min(ds)), Sc)
Backward(o, M, G, w, b) ==
  LET on(d) == {a \in G : o[a].d = d /\ Some(M[a][b])}
      ds == {d \in (o[b].d - w)..(o[b].d - 1) : on(d) # {}} IN
  IF ds = {} THEN {} ELSE LET Sc(a) == M[a][b] IN Best(on(Max(ds)), Sc)
(* r: [nx, pv, sg]; 0 = none *)
NextOK(o, M, G, w, r) == \A a \in G : LET f == Forward(o, M, G, w, a) IN IF f = {} THEN r.nx[a] = 0 ELSE r.nx[a] \in f
PrevOK(o, M, G, w, r) ==
  \A b \in G : LET T == {a \in G : r.nx[a] = b} Sc(a) == M[a][b] IN
     IF T # {} THEN r.pv[b] \in Best(T, Sc)
     ELSE LET f == Backward(o, M, G, w, b) IN IF f = {} THEN r.pv[b] = 0 ELSE r.pv[b] \in f
Chain(G, r) == {e \in G \X G : r.nx[e[1]] = e[2] /\ r.pv[e[2]] = e[1]}
SegOK(G, r) == \A a \in G : r.sg[a] # 0 /\ {b \in G : r.sg[b] = r.sg[a]} = Component(a, Chain(G, r))
Segmented(o, M, G, w, r) == NextOK(o, M, G, w, r) /\ PrevOK(o, M, G, w, r) /\ SegOK(G, r)
(* consequences which users rely on *)
WellFormed(o, G, r) ==
  \A a \in G : LET S == {b \in G : r.sg[b] = r.sg[a]} IN
    /\ \A b \in S : b # a => o[b].d # o[a].d
    /\ LET later == {b \in S : o[b].d > o[a].d} earlier == {b \in S : o[b].d < o[a].d} IN
       /\ later # {} => LET b == CHOOSE b \in later : \A q \in later : o[b].d <= o[q].d IN r.nx[a] = b /\ r.pv[b] = a
       (* only the last one goes to another segment, only the first one comes from another *)
       /\ (later = {} /\ r.nx[a] # 0) => o[r.nx[a]].d > o[a].d /\ r.sg[r.nx[a]] # r.sg[a]
       /\ (earlier = {} /\ r.pv[a] # 0) => o[r.pv[a]].d < o[a].d /\ r.sg[r.pv[a]] # r.sg[a]
=============================================================================
