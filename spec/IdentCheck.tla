----------------------------- MODULE IdentCheck -----------------------------
EXTENDS Identification, Report
VARIABLES c
Rng(s) == {s[k] : k \in DOMAIN s}
Close(a, b, t) == Abs(a - b) <= t
Rel(a, b, t) == Abs(a - b) <= t + (Abs(b) \div 400)
(* ---- which contours are eddies ---- *)
I(e, p) == (p - 1) \div e.ny
J(e, p) == (p - 1) % e.ny
Nodes(e) == 1..(e.nx * e.ny)
Heights(e) == [p \in Nodes(e) |-> e.h[I(e, p) + 1][J(e, p) + 1]]
Missing(e) == {p \in Nodes(e) : e.m[I(e, p) + 1][J(e, p) + 1] = 1}
Steps == ((-1..1) \X (-1..1)) \ {<<0, 0>>}
Around(e, p) ==
  {((IF e.circ THEN (I(e, p) + d[1]) % e.nx ELSE I(e, p) + d[1]) * e.ny) + J(e, p) + d[2] + 1 :
     d \in {x \in Steps : J(e, p) + x[2] \in 0..(e.ny - 1) /\ (e.circ \/ I(e, p) + x[1] \in 0..(e.nx - 1))}}
Lines(e) == [k \in DOMAIN e.C |-> [l |-> e.C[k].l, px |-> Rng(e.C[k].px), err |-> e.C[k].err]]
(* a node higher than its neighbours inside and lower than one outside (saddle) is an extremum when this one is reserved by another
   eddy: depends on the order of the contours of a level, not judged *)
Unsure(e) ==
  LET h == TLCEval(Heights(e)) M == TLCEval(Missing(e)) C == Lines(e) IN
  \E k \in DOMAIN C, s \in {-1, 1} :
     /\ C[k].err >= 0 /\ C[k].err <= e.thr
     /\ \A p \in C[k].px : By(h, s, C[k].l, p) > 0
     /\ \E p \in C[k].px : LET nb == Around(e, p) \ M IN
           (\A r \in nb \cap C[k].px : s * h[r] < s * h[p])
           /\ (\E r \in nb \ C[k].px : s * h[r] > s * h[p] /\ \E o \in Rng(e.out) : o[2] \in DOMAIN C /\ r \in C[o[2]].px)
FieldClauses(e) ==
  LET h == TLCEval(Heights(e))
      M == TLCEval(Missing(e))
      near == TLCEval([p \in Nodes(e) |-> Around(e, p) \ M])
      Nb(p) == near[p]
      C == TLCEval(Lines(e))
      Good == TLCEval({g \in {-1, 1} \X DOMAIN C : Acceptable(h, Nb, M, g[1], e, C[g[2]])})
      Out == TLCEval({<<o[1], o[2]>> : o \in Rng(e.out)})
      Dom == \A o \in Out : o[2] \in DOMAIN C
      sure == ~Unsure(e)
  IN [ no_exception |-> e.exc = "",
       are_contours |-> Dom,
       once |-> Cardinality(Out) = Len(e.out),
       acceptable |-> (Dom /\ sure) => Out \subseteq Good,
       apart |-> Dom => Apart(C, Out),
       none_missed |-> (Dom /\ sure /\ e.exc = "") => NoneMissed(C, Good, Out),
       repeatable |-> e.again ]
(* ---- what is said about one eddy: chain[1] is its outermost contour, then the inner ones ---- *)
EddyClauses(e) ==
  LET n == Len(e.chain)
      ks == {k \in 1..n : e.chain[k].id = e.sid}
      known == ks # {} /\ ~e.amb
      s == IF ks = {} THEN e.chain[1] ELSE e.chain[CHOOSE k \in ks : TRUE]
      x == e.chain[1]
      in == e.chain[n]
      Fair == {k \in 1..n : k = 1 \/ e.chain[k].n > e.pmin}
      Turn(a, b, t) == LET d == Abs(a - b) % 360000 IN (IF d > 180000 THEN 360000 - d ELSE d) <= t
      Place(lon, lat, k) == LET t == k.tlon + (2 * e.tol) + (k.r \div 4000) IN
                            Turn(lon, k.lon, t) /\ Close(lat, k.lat, t) /\ lon >= 0 /\ lon < 360000 + e.tol
      Radius(r, k) == Rel(r, k.r, e.tol + k.tr)
      Shape(v, k) == Close(v, k.err, k.terr + (IF e.app THEN 50 ELSE 0))
      Area(a, k) == Abs(a - k.area) <= 1 + (k.area \div 250) + (IF k.tr = 0 THEN 0 ELSE (k.area \div k.r + 1) * 3 * k.tr)
      Speed(v, k) == Rel(v, k.spd, k.tspd)
      judged == ~e.amb /\ ~e.multi
      speeds == judged /\ ~e.unsure
  IN [ amplitude |-> e.top => Close(e.amp, (100 * Max({e.sgn * (e.px[k] - 16 * e.l) : k \in DOMAIN e.px})) \div 16, e.tol),
       height_external |-> Close(e.he, 100 * e.l, e.tol),
       speed_contour |-> ~e.amb => e.sid # 0,
       fastest |-> (known /\ speeds) => \A k \in Fair : Speed(e.spd, e.chain[k]) \/ e.spd > e.chain[k].spd,
       enough_pixels |-> known => (s = x \/ s.n >= e.pmin),
       height_speed |-> known => Close(e.hs, 100 * s.l, e.tol),
       height_inner |-> ~e.amb => Close(e.hi, 100 * in.l, e.tol),
       speed |-> (known /\ speeds) => Speed(e.spd, s),
       profile |-> speeds => e.nb = n /\ Speed(e.prof[1], x) /\ Speed(e.prof[2], in),
       position |-> (known /\ judged) => Place(e.lon, e.lat, s),
       extremum |-> judged => Place(e.lonm, e.latm, in),
       radius |-> (known /\ judged) => Radius(e.rs, s) /\ Radius(e.re, x),
       area |-> (known /\ judged) => Area(e.arees, s) /\ Area(e.areee, x),
       shape |-> (known /\ judged) => Shape(e.errs, s) /\ Shape(e.erre, x),
       points |-> (known /\ judged) => e.pts = <<x.pts, s.pts>>,
       time |-> Abs(e.day) <= 1,
       sign |-> e.type = e.sgn,
       sampling |-> e.size = <<e.want, e.want>>,
       one_turn |-> e.around,
       nodes_inside |-> e.nodes ]
Clauses(e) == IF e.kind = "ident" THEN FieldClauses(e) ELSE EddyClauses(e)
TraceInit == c = 1
TraceNext == /\ c <= NCases
             /\ LET e == Cases[c] IN
                  /\ Report(c, 0, Clauses(e))
                  /\ Stat("kind_" \o e.kind, 1)
                  /\ IF e.kind = "eddy" THEN Stat("ambiguous_chains", IF e.amb THEN 1 ELSE 0) ELSE Stat("unsure_fields", IF Unsure(e) THEN 1 ELSE 0)
             /\ LastCase(c) /\ c' = c + 1
=============================================================================
