---------------------------- MODULE StorageCheck ----------------------------
EXTENDS Storage, Report, FiniteSetsExt
VARIABLES c
Rng(s) == {s[k] : k \in DOMAIN s}
Opt(st) == [keep |-> Rng(st.keep), from |-> st.lo, to |-> st.hi]
Before(e, k) == IF k = 1 THEN e.first ELSE e.steps[k - 1].got
(* fields which were not asked for are absent or without value *)
Zero(rows) == \A k \in DOMAIN rows : \A i \in DOMAIN rows[k] : rows[k][i] \in {0, -360, 18000, -18000}
StepClauses(e, k) ==
  LET st == e.steps[k] T == Before(e, k) o == Opt(st) X == Read(T, o) G == st.got ok == st.exc = "" IN
  [ no_exception |-> ok,
    fields |-> ok => Names(X) \subseteq DOMAIN G.f,
    values |-> ok => \A a \in Names(X) \cap DOMAIN G.f : G.f[a] = X.f[a],
    nothing_else |-> ok => \A a \in DOMAIN G.f \ Names(X) : st.how # "all" /\ a \in Rng(e.own) /\ Zero(G.f[a]),
    rows |-> ok => G.n = Size([f |-> X.f]) ,
    sign |-> ok => G.sign = T.sign,
    kind_of_values |-> ok => G.raw = st.raw,
    source_kept |-> st.same ]
TraceInit == c = 1
TraceNext == /\ c <= NCases
             /\ LET e == Cases[c] IN
                  /\ \A k \in DOMAIN e.steps : Report(c, k, StepClauses(e, k))
                  /\ Stat("kind_" \o e.kind, 1) /\ Stat("files", Len(e.steps))
             /\ LastCase(c) /\ c' = c + 1
=============================================================================
