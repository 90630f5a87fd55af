--------------------------- MODULE NetBuildCheck ---------------------------
(* Recorded constructions of networks: groups of the observations of several files, table by group,
   segments. Observations are numbered from 1 in the order of the files (o).                   *)
EXTENDS Segments, Report
VARIABLES c
OK(e) == e.exc = ""
Turn == 360
Obs(e, in) == [k \in DOMAIN e.o |-> [d |-> e.o[k].d, p |-> IF in THEN e.o[k].q ELSE e.o[k].p]]
Near(v, s) == Abs(v * s[2] - 1000000 * s[1]) <= 4 * s[2]
GroupClauses(e) ==
  LET o == Obs(e, e.gi) M == TLCEval(Matrix(o, e.gmode, e.ghyb, e.gmin, Turn)) E == Links(o, M, e.gw) IN
  [ group_size |-> OK(e) => Len(e.gr) = Len(e.o),
    groups     |-> (OK(e) /\ e.grouped) => Grouped(e.gr, E) ]
(* rows: observation u, group g, 1 when every field is unchanged *)
ByGroup(gr) == SetToSortSeq(DOMAIN gr, LAMBDA a, b : gr[a] < gr[b] \/ (gr[a] = gr[b] /\ a < b))
RowClauses(e) ==
  [ rows_order     |-> (OK(e) /\ e.table) => [k \in DOMAIN e.rows |-> e.rows[k].u] = ByGroup(e.gr),
    rows_group     |-> (OK(e) /\ e.table) => \A k \in DOMAIN e.rows : e.rows[k].u \in DOMAIN e.gr => e.rows[k].g = e.gr[e.rows[k].u],
    rows_type      |-> (OK(e) /\ e.table) => e.sign[1] = e.sign[2] ]
(* fin: observation u, group g, segment s, date t, next and previous row (from 1, 0 = none), costs in millionths *)
FinOK(e) == OK(e) /\ e.split
Perm(e) == Len(e.fin) = Len(e.o) /\ {e.fin[k].u : k \in DOMAIN e.fin} = DOMAIN e.o
InRange(e) == \A k \in DOMAIN e.fin : e.fin[k].n \in 0..Len(e.fin) /\ e.fin[k].p \in 0..Len(e.fin)
Lex(a, b) == a.g < b.g \/ (a.g = b.g /\ (a.s < b.s \/ (a.s = b.s /\ a.t <= b.t)))
FinClauses(e) ==
  LET go == FinOK(e) /\ Perm(e) /\ InRange(e)
      o == Obs(e, e.si) M == TLCEval(Matrix(o, e.smode, e.shyb, e.smin, Turn))
      At1(u) == CHOOSE k \in DOMAIN e.fin : e.fin[k].u = u
      at == TLCEval([u \in DOMAIN e.o |-> At1(u)])
      R == TLCEval([nx |-> [u \in DOMAIN e.o |-> IF e.fin[at[u]].n = 0 THEN 0 ELSE e.fin[e.fin[at[u]].n].u],
            pv |-> [u \in DOMAIN e.o |-> IF e.fin[at[u]].p = 0 THEN 0 ELSE e.fin[e.fin[at[u]].p].u],
            sg |-> [u \in DOMAIN e.o |-> e.fin[at[u]].s]])
      Gs == {{u \in DOMAIN e.o : e.gr[u] = g} : g \in {e.gr[u] : u \in DOMAIN e.o} \ {0}} IN
  [ fin_rows     |-> FinOK(e) => Perm(e),
    fin_indexes  |-> FinOK(e) => InRange(e),
    fin_group    |-> go => \A u \in DOMAIN e.o : e.fin[at[u]].g = e.gr[u],
    fin_sorted   |-> go => \A k \in 1..(Len(e.fin) - 1) : Lex(e.fin[k], e.fin[k + 1]),
    fin_trash    |-> go => \A u \in DOMAIN e.o : e.gr[u] = 0 => R.sg[u] = 0 /\ R.nx[u] = 0 /\ R.pv[u] = 0,
    fin_next     |-> go => \A G \in Gs : NextOK(o, M, G, e.sw, R),
    fin_previous |-> go => \A G \in Gs : (\A u \in G : R.nx[u] \in G \cup {0}) => PrevOK(o, M, G, e.sw, R),
    fin_segments |-> go => \A G \in Gs : (\A u \in G : R.nx[u] \in G \cup {0} /\ R.pv[u] \in G \cup {0}) => SegOK(G, R),
    fin_costs    |-> go => \A u \in DOMAIN e.o : LET f == e.fin[at[u]] IN
                        /\ IF R.nx[u] = 0 THEN f.nc = 0 ELSE Near(f.nc, M[u][R.nx[u]])
                        /\ IF R.pv[u] = 0 THEN f.pc = 0 ELSE Near(f.pc, M[R.pv[u]][u]),
    fin_type     |-> FinOK(e) => e.sign[1] = e.sign[3] ]
Clauses(e) == [no_exception |-> e.exc = ""] @@ GroupClauses(e) @@ RowClauses(e) @@ FinClauses(e)
Multi(e, f(_)) == Cardinality({k \in DOMAIN e.fin : f(e.fin[k])})
Trace1(e) ==
  /\ Stat("groups", Cardinality({e.gr[k] : k \in DOMAIN e.gr} \ {0}))
  /\ Stat("observations", Len(e.o))
  /\ Stat("segmented", Len(e.fin))
  /\ IF FinOK(e) THEN
       /\ LET F(r) == r.n # 0 /\ r.n \in DOMAIN e.fin /\ e.fin[r.n].s # r.s IN Stat("mergings", Multi(e, F))
       /\ LET F(r) == r.p # 0 /\ r.p \in DOMAIN e.fin /\ e.fin[r.p].s # r.s IN Stat("splittings", Multi(e, F))
     ELSE TRUE
TraceInit == c = 1
TraceNext == c <= NCases /\ Report(c, 0, Clauses(Cases[c])) /\ Trace1(Cases[c]) /\ LastCase(c) /\ c' = c + 1
=============================================================================
