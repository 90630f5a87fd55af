---------------------------- MODULE GridFileCheck ----------------------------
EXTENDS GridFile, Report, FiniteSetsExt
VARIABLES c
Empty == [x \in {} |-> <<>>]
(* state: [m, d]: memory and names which have a description *)
After(e, s, st) ==
  LET m == s.m F == e.F o == e.o IN
  CASE st.op \in {"grid", "gridt"} -> [s EXCEPT !.m = Asked(m, F, o, st.a, st.t)]
    [] st.op = "copy" -> [m |-> Copied(m, F, o, st.a, st.b), d |-> s.d \cup {st.b}]
    [] st.op = "set" -> [s EXCEPT !.m = Changed(m, F, o, st.a, st.i, st.j, st.v)]
    [] st.op = "add" -> [s EXCEPT !.m = Put(m, st.a, st.m)]
    [] st.op = "reload" -> [m |-> Empty, d |-> {"a", "b"}]
    [] OTHER -> s
RECURSIVE States(_, _, _)
States(e, s, k) == IF k > Len(e.steps) THEN <<>> ELSE LET n == TLCEval(After(e, s, e.steps[k])) IN <<n>> \o States(e, n, k + 1)
StepClauses(e, k, s, n) ==
  LET st == e.steps[k] ok == st.exc = "" wr == ok /\ st.op = "write" rd == ok /\ st.op \in {"grid", "gridt", "copy", "set"} IN
  [ no_exception |-> ok,
    reading |-> rd => st.out = n.m[IF st.op = "copy" THEN st.b ELSE st.a],
    tile |-> (ok /\ st.op = "tile") => st.out = Sub(Slice(e.F, [e.o EXCEPT !.x0 = 0, !.y0 = 0, !.x1 = Len(e.x), !.y1 = Len(e.y)], st.a, -1), st.x0, st.x1, st.y0, st.y1),
    units |-> st.units # "other",
    written |-> wr => DOMAIN st.files = DOMAIN n.m,
    file_values |-> wr => \A a \in DOMAIN st.files \cap DOMAIN n.m : st.files[a] = n.m[a],
    read_again |-> wr => \A a \in DOMAIN st.again \cap DOMAIN n.m : st.again[a] = n.m[a],
    coordinates |-> wr => st.cx = SubSeq(e.x, e.o.x0 + 1, e.o.x1) /\ st.cy = SubSeq(e.y, e.o.y0 + 1, e.o.y1),
    one_date |-> wr => st.dates <= 1,
    attributes |-> wr => st.title = "some grids" ]
(* collections: dates in quarters of day *)
Present(S, t) == At(S, t) # {}
Data(e) == e.data
NILV == -99999
Pair(S, st) == Present(S, st.t) /\ Present(S, st.t + 4)
CAfter(e, S, st) ==
  CASE st.op = "get" -> IF Present(S, st.t) THEN Read(S, First(S, st.t), Data(e)) ELSE S
    [] st.op = "set" -> IF Present(S, st.t) THEN LET q == First(S, st.t) R == Read(S, q, Data(e)) IN [R EXCEPT ![q].m[1][st.i][st.j] = st.v] ELSE S
    [] st.op = "reset" -> Reset(S, st.n)
    [] st.op = "interp" -> IF Pair(S, st) THEN Read(Read(S, First(S, st.t), Data(e)), First(S, st.t + 4), Data(e))
                           ELSE IF Present(S, st.t) THEN Loaded(S, First(S, st.t)) ELSE S
    [] st.op = "shift" -> Shifted(S, st.t, st.k)
    [] st.op = "next" -> Turned(S, Onward(S, st.t))
    [] st.op = "prev" -> Turned(S, Back(S, st.t))
    [] OTHER -> S
RECURSIVE CStates(_, _, _)
CStates(e, S, k) == IF k > Len(e.steps) THEN <<>> ELSE LET n == TLCEval(CAfter(e, S, e.steps[k])) IN <<n>> \o CStates(e, n, k + 1)
Value(S, st, p) == LET a == S[First(S, st.t)].m[1][p[1]][p[2]] b == S[First(S, st.t + 4)].m[1][p[1]][p[2]] IN
                   IF a = NILV \/ b = NILV THEN NILV ELSE (b * st.q) + (a * (4 - st.q))
CClauses(e, k, S, N) ==
  LET st == e.steps[k] ok == st.exc = "" there == IF st.op \in {"get", "set"} THEN Present(S, st.t) ELSE (st.op = "interp" => Pair(S, st)) IN
  [ no_exception |-> there => ok,
    unknown_date |-> ~there => ~ok,
    grid_of_date |-> (ok /\ there /\ st.op \in {"get", "set"}) => st.out = N[First(N, st.t)].m[1],
    in_time |-> (ok /\ there /\ st.op = "interp") => st.val = [q \in DOMAIN st.pts |-> Value(N, st, st.pts[q])],
    onward |-> (ok /\ st.op = "next") => st.seq = Onward(S, st.t),
    back |-> (ok /\ st.op = "prev") => st.seq = Back(S, st.t),
    times |-> (ok /\ st.op = "times") => st.seq = [q \in DOMAIN S |-> S[q].t] /\ st.val = <<S[1].t, S[Len(S)].t>> /\ st.n = NbOn(S),
    currents |-> st.uv # "other" ]
Checked(e, c0) ==
  IF e.kind = "data"
  THEN LET s0 == [m |-> Empty, d |-> {"a", "b"}] S == TLCEval(States(e, s0, 1)) IN
       \A k \in DOMAIN e.steps : Report(c0, k, StepClauses(e, k, IF k = 1 THEN s0 ELSE S[k - 1], S[k]))
  ELSE LET s0 == [q \in DOMAIN e.dates |-> [t |-> e.dates[q], k |-> q, on |-> TRUE, m |-> <<>>]] S == TLCEval(CStates(e, s0, 1)) IN
       \A k \in DOMAIN e.steps : Report(c0, k, CClauses(e, k, IF k = 1 THEN s0 ELSE S[k - 1], S[k]))
TraceInit == c = 1
TraceNext == /\ c <= NCases
             /\ LET e == Cases[c] IN
                  /\ Report(c, 0, [opening |-> e.exc = ""])
                  /\ Checked(e, c)
                  /\ Stat("kind_" \o e.kind, 1) /\ Stat("steps", Len(e.steps))
             /\ LastCase(c) /\ c' = c + 1
=============================================================================
