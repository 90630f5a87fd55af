----------------------------- MODULE NetworksMC -----------------------------
(* Every whole network of N rows on Days dates, and what operations make of it. *)
EXTENDS Networks, Json
CONSTANTS N, Days, MaxTr, MaxSg
VARIABLES T, op
(* shapes: keys and dates of the rows, sorted *)
Ordered(q) == \A k \in 1..(Len(q) - 1) : LET a == q[k] b == q[k + 1] IN
  IF a.tr # b.tr THEN b.tr = a.tr + 1 /\ b.sg = 1
  ELSE IF a.sg # b.sg THEN b.sg = a.sg + 1 ELSE (IF a.tr = 0 THEN a.t <= b.t ELSE a.t < b.t)
Begins(q) == q[1].tr = 0 \/ (q[1].tr = 1 /\ q[1].sg = 1)
RECURSIVE Build(_, _)
Build(n, q) ==
  (* sequences which are ordered, extended row by row *)
  IF n = 0 THEN {q}
  ELSE UNION {LET r == Append(q, w) IN IF Ordered(r) /\ Begins(r) THEN Build(n - 1, r) ELSE {}
              : w \in {w \in [tr : 0..MaxTr, sg : 0..MaxSg, t : 1..Days] : (w.tr = 0) = (w.sg = 0)}}
Plain(q) == [k \in DOMAIN q |-> [u |-> k, tr |-> q[k].tr, sg |-> q[k].sg, t |-> q[k].t, n |-> 0, p |-> 0, nc |-> 0, pc |-> 0]]
(* links inside the segments, and the ends anywhere later or earlier in the network *)
Ends(P) ==
  LET Lst(k) == P[k].tr # 0 /\ k = Final(P, Key(P, k)) Fst(k) == P[k].tr # 0 /\ k = First(P, Key(P, k))
      Nx(k) == IF P[k].tr = 0 THEN {0} ELSE IF ~Lst(k) THEN {k + 1} ELSE {0} \cup {j \in DOMAIN P : P[j].tr = P[k].tr /\ P[j].sg # P[k].sg /\ P[j].t > P[k].t}
      Pv(k) == IF P[k].tr = 0 THEN {0} ELSE IF ~Fst(k) THEN {k - 1} ELSE {0} \cup {j \in DOMAIN P : P[j].tr = P[k].tr /\ P[j].sg # P[k].sg /\ P[j].t < P[k].t} IN
  {[k \in DOMAIN P |-> [P[k] EXCEPT !.n = f[k], !.p = g[k]]] :
     f \in {f \in [DOMAIN P -> 0..Len(P)] : \A k \in DOMAIN P : f[k] \in Nx(k)}, g \in {g \in [DOMAIN P -> 0..Len(P)] : \A k \in DOMAIN P : g[k] \in Pv(k)}}
Init == T \in UNION {Ends(Plain(q)) : q \in Build(N, <<>>)} /\ op = "begin"
Do(name, R) == T' = R /\ op' = name
Next ==
  /\ op = "begin"
  /\ \/ \E K \in SUBSET DOMAIN T : Do("mask", Take(T, K))
     \/ \E I \in SUBSET Nets(T) : Do("nets", Take(T, OfNets(T, I)))
     \/ \E a \in 0..Days, b \in 0..Days : Do("period", Take(T, Period(T, a, b)))
     \/ \E a \in 1..3, b \in 0..Days, r \in 0..1, M \in {{}, {1}} : Do("deadend", DeadEnd(T, a, b, r, M))
     \/ Do("dissociate", Dissociate(T))
     \/ \E a \in {1, 2, 9} : Do("close", CloseEvents(T, a))
     \/ \E k \in DOMAIN T, a \in 0..2 : T[k].tr # 0 /\ Do("relatives", Take(T, Relatives(T, {k}, a)))
     \/ \E k \in DOMAIN T, f \in BOOLEAN, b \in BOOLEAN : T[k].tr # 0 /\ Do("link", Take(T, Linked(T, {k}, f, b)))
     \/ Do("nums", NumberSegs(NumberNets(T, IF 0 \in Nets(T) THEN 0 ELSE 1), IF 0 \in Nets(T) THEN 0 ELSE 1))
Emit == op = "begin" /\ PrintT(<<"SCN", ToJson(T)>>) /\ op' = "x" /\ UNCHANGED T
StaysSound == op # "mask" => Sound(T)
StaysWhole == op \in {"begin", "nets", "period", "deadend", "dissociate", "close", "relatives"} => Whole(T)
(* links of any selection stay inside it, and are those of before *)
MaskSound == op = "mask" => \A k \in DOMAIN T : (T[k].n # 0 => T[T[k].n].t > T[k].t) /\ (T[k].p # 0 => T[T[k].p].t < T[k].t)
Connected == op = "dissociate" => \A i \in Nets(T) \ {0} : LET S == {s \in Keys(T) : s[1] = i} IN \A s \in S : Reach({s}, Meets(T)) = S
=============================================================================
