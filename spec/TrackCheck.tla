----------------------------- MODULE TrackCheck -----------------------------
(* Recorded runs of Correspondances against Tracking: the associations of each step
   must be a step of the specification, and what is derived from them (merged table,
   selections, saved and resumed runs) must be what the specification derives.       *)
EXTENDS Tracking, Lanes, Report
VARIABLES c, l, s

C == Cases[c]
Start(k) == IF k <= NCases THEN SInit(Cases[k].V, Cases[k].n0) ELSE SInit(0, 0)
TraceInit == c = 1 /\ l = 0 /\ s = Start(1)

(* ---- final clauses ---------------------------------------------------------- *)
CostAt(st, id, f) ==
  IF f + 1 \in DOMAIN st.links /\ \E k \in DOMAIN st.links[f + 1] : st.links[f + 1][k].id = id
  THEN LET L == st.links[f + 1] IN L[CHOOSE k \in DOMAIN L : L[k].id = id].c
  ELSE -1
WithCost(st, R, ids) ==
  LET idseq == IdSeq(ids)
      tab == TableOf(R, idseq, 1)
  IN [j \in DOMAIN tab |->
       [t |-> tab[j].t, n |-> tab[j].n, f |-> IF tab[j].src = -1 THEN -1 ELSE tab[j].f,
        src |-> tab[j].src, c |-> CostAt(st, idseq[tab[j].t + 1], tab[j].f)]]
NoCost(tab) == [j \in DOMAIN tab |-> [t |-> tab[j].t, n |-> tab[j].n, f |-> tab[j].f, src |-> tab[j].src]]
Untracked(st, R) ==
  LET used == {<<r[2], r[3]>> : r \in R}
      all == FlattenSeq([f \in 1..Len(st.sizes) |-> [i \in 1..st.sizes[f] |-> <<f - 1, i - 1>>]])
  IN SelectSeq(all, LAMBDA x : x \notin used)
(* chains: tracks as sets of observations, whatever the identities *)
Chains(R) == {{<<r[2], r[3]>> : r \in TrackRows(R, id)} : id \in {r[1] : r \in R}}
LinksOfEv(ev) == [k \in DOMAIN ev |-> ev[k].links]
StripId(L) == {[in |-> L[k].in, out |-> L[k].out, v |-> L[k].v, vl |-> L[k].vl] : k \in DOMAIN L}
LaneOf(fin, r) == fin.lanes[r[1] + 1][r[2] + 1]
ExpectLanes(fin, V) ==
  LET all == UNION {Range(fin.lanes[f]) : f \in DOMAIN fin.lanes}
      row(f, k) == CHOOSE i \in DOMAIN fin.lanes[f + 1] : fin.lanes[f + 1][i] = k
  IN UNION {{{<<f, row(f, k) - 1>> : f \in t}
             : t \in LaneTracks([f \in DOMAIN fin.lanes |-> k \in Range(fin.lanes[f])], V)} : k \in all}

(* ---- merging of two runs which overlap ------------------------------------------
   Run A covers the files before a_stop, run B those from b0.  The two runs agree at
   the junction when they kept the same associations in the last V+1 common steps:
   both then hold the same live (seen or missing) tracks.                          *)
Phys(ev) == [k \in DOMAIN ev |-> StripId(ev[k].links)]
NCommon(fin) == fin.a_stop - 1 - fin.b0
Agree(fin, V) ==
  /\ NCommon(fin) >= V + 1
  /\ \A j \in 0..V : LET step == fin.a_stop - 1 - j IN
        /\ StripId(fin.whole[step].links) = StripId(fin.b[step - fin.b0].links)
SameTail(fin) == \A k \in fin.a_stop..Len(fin.whole) :
                    StripId(fin.whole[k].links) = StripId(fin.b[k - fin.b0].links)
JoinClauses(case) ==
  LET fin == case.fin IN
  [ no_exception |-> case.exc = "",
    all_steps    |-> Len(case.ev) = case.nfiles - 1,
    steps_kept   |-> Len(case.ev) = case.nfiles - 1 =>
                     Phys(case.ev) = [k \in 1..(case.nfiles - 1) |->
                                      IF k < fin.a_stop THEN StripId(fin.whole[k].links)
                                      ELSE StripId(fin.b[k - fin.b0].links)] ]

Has(fin, key) == key \in DOMAIN fin
FinalClauses(st, case) ==
  LET fin == case.fin
      R == Rows(st.links)
      ids == {r[1] : r \in R}
      all == 0..(st.next - 1)
      long == {i \in ids : TrackLen(R, i) >= fin.size}
  IN
  [ no_exception  |-> case.exc = "",
    all_files_used|-> Len(st.sizes) = case.nfiles,
    merged_table  |-> Has(fin, "tab") => fin.tab = WithCost(st, R, all),
    merged_again  |-> Has(fin, "tab_again") => fin.tab_again = WithCost(st, R, all),
    long_tracks   |-> Has(fin, "long") => fin.long = WithCost(st, R, long),
    short_tracks  |-> Has(fin, "short") => fin.short = WithCost(st, R, ids \ long),
    long_file     |-> Has(fin, "longf") => fin.longf = NoCost(WithCost(st, R, long)),
    short_file    |-> Has(fin, "shortf") => fin.shortf = NoCost(WithCost(st, R, ids \ long)),
    untracked     |-> Has(fin, "unused") => fin.unused = Untracked(st, R),
    same_as_whole |-> Has(fin, "other") => LinksOfEv(fin.other) = st.links,
    same_again    |-> Has(fin, "again") => LinksOfEv(fin.again) = st.links,
    same_tracks   |-> Has(fin, "b") /\ SameTail(fin) => Chains(Rows(LinksOfEv(fin.whole))) = Chains(R),
    same_state    |-> Has(fin, "attrs") => \A k \in DOMAIN fin.attrs : fin.attrs[k][1] = fin.attrs[k][2],
    lane_tracks   |-> Has(fin, "lanes") => Chains(R) = ExpectLanes(fin, st.V) ]

(* properties of the design, evaluated on the states reached by the real code *)
StateClauses(st) ==
  [ one_track_per_obs |-> OneTrackPerObs(st), one_obs_per_file |-> OneObsPerFile(st),
    gaps_bounded |-> GapsBounded(st), ids_dense |-> IdsDense(st) ]

NLinks(case) == FoldFunction(+, 0, [k \in DOMAIN case.ev |-> Len(case.ev[k].links)])
NBridge(case) == FoldFunction(+, 0, [k \in DOMAIN case.ev |->
                   Cardinality({j \in DOMAIN case.ev[k].links : case.ev[k].links[j].v})])
NCross(case) == FoldFunction(+, 0, [k \in case.fin.a_stop..Len(case.ev) |->
                   Cardinality({j \in DOMAIN case.ev[k].links : case.ev[k].links[j].v
                                 /\ k - case.ev[k].links[j].vl <= case.fin.a_stop})])
Stats(case) == Stat("links", NLinks(case)) /\ Stat("bridges", NBridge(case))
               /\ Stat("tracks", s.next) /\ Stat("cases", 1)
               /\ Stat("bridged_over_junction", IF Has(case.fin, "b") THEN NCross(case) ELSE 0)

NextCase == c' = c + 1 /\ l' = 0 /\ s' = Start(c + 1) /\ LastCase(c)
TraceNext ==
  /\ c <= NCases
  /\ IF Has(C.fin, "b") /\ l = 0 /\ Failing(JoinClauses(C)) # {}
     THEN Report(c, 0, JoinClauses(C)) /\ NextCase
     ELSE IF Has(C.fin, "b") /\ l = 0 /\ ~Agree(C.fin, C.V)
     THEN Stat("junction_not_common", 1) /\ NextCase
     ELSE IF l < Len(C.ev)
     THEN LET e == C.ev[l + 1]
              A == StructClauses(s, e)
              B == IF Failing(A) = {} THEN StepClauses(s, e) ELSE A
          IN IF Failing(A) = {} /\ Failing(B) = {}
             THEN s' = SStep(s, e) /\ l' = l + 1 /\ c' = c
             ELSE /\ Report(c, l + 1, B)
                  /\ NextCase
     ELSE /\ Report(c, 0, FinalClauses(s, C))
          /\ IF C.exc = "" THEN Report(c, 0, StateClauses(s)) ELSE TRUE
          /\ Stats(C)
          /\ NextCase
=============================================================================
