-------------------------------- MODULE Lanes --------------------------------
(* What the tracking has to do with an eddy that nothing can be confused with (a
   "lane"): P is the sequence of files in which it is detected, V the number of
   missing detections that may be bridged.
   "none" -> "single" -> "active" <-> "missing" -> closed                        *)
EXTENDS Integers, Sequences, FiniteSets

LInit == [mode |-> "none", cur |-> {}, miss |-> 0, tracks |-> {}]
LStep(a, f, present, V) ==
  CASE a.mode = "none" ->
         IF present THEN [a EXCEPT !.mode = "single", !.cur = {f}] ELSE a
    [] a.mode = "single" ->
         IF present THEN [a EXCEPT !.mode = "active", !.cur = @ \union {f}]
                    ELSE [a EXCEPT !.mode = "none", !.cur = {}]
    [] a.mode = "active" ->
         IF present THEN [a EXCEPT !.cur = @ \union {f}]
         ELSE IF V > 0 THEN [a EXCEPT !.mode = "missing", !.miss = 1]
         ELSE [a EXCEPT !.mode = "none", !.tracks = @ \union {a.cur}, !.cur = {}]
    [] a.mode = "missing" ->
         IF present THEN [a EXCEPT !.mode = "active", !.cur = @ \union {f}, !.miss = 0]
         ELSE IF a.miss < V THEN [a EXCEPT !.miss = @ + 1]
         ELSE [a EXCEPT !.mode = "none", !.tracks = @ \union {a.cur}, !.cur = {}, !.miss = 0]
LEnd(a) == a.tracks \union (IF a.mode \in {"active", "missing"} THEN {a.cur} ELSE {})
RECURSIVE LRun(_, _, _, _)
LRun(a, P, k, V) == IF k > Len(P) THEN a ELSE LRun(LStep(a, k - 1, P[k], V), P, k + 1, V)
(* the set of tracks, each a set of files *)
LaneTracks(P, V) == LEnd(LRun(LInit, P, 1, V))
=============================================================================
