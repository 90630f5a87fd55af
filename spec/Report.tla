------------------------------- MODULE Report -------------------------------
(* Total verdicts: every clause of a case is evaluated and the names of those which
   fail are printed; the runner (lib/vf.py) collects the lines.                      *)
EXTENDS Integers, Sequences, TLC, TLCExt, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
NCases == Len(Cases)
Failing(clauses) == {k \in DOMAIN clauses : ~clauses[k]}
Report(c, l, clauses) == \A k \in Failing(clauses) : PrintT(<<"V", c, l, k>>)
Stat(key, n) == IF n = 0 THEN TRUE ELSE PrintT(<<"S", key, n>>)
LastCase(c) == IF c = NCases THEN PrintT(<<"DONE", NCases>>) ELSE TRUE
=============================================================================
