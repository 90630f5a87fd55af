------------------------------- MODULE LanesMC -------------------------------
(* All the histories of detection of NLanes independent eddies over NFiles files, with
   the life cycle of each; complete histories are printed: they are replayed on the
   real tracker.                                                                    *)
EXTENDS Lanes, TLC, Json, FiniteSetsExt, SequencesExt
CONSTANTS NLanes, NFiles, MaxV
VARIABLES V, hist, a
LaneSet == 0..(NLanes - 1)
Init == V \in 0..MaxV /\ hist = <<>> /\ a = [k \in LaneSet |-> LInit]
Detect == /\ Len(hist) < NFiles
          /\ \E p \in SUBSET LaneSet :
               /\ hist' = Append(hist, p)
               /\ a' = [k \in LaneSet |-> LStep(a[k], Len(hist), k \in p, V)]
          /\ UNCHANGED V
(* lanes are interchangeable: keep one representative of each history up to renaming *)
Code(k) == FoldLeft(LAMBDA x, p : 2 * x + (IF k \in p THEN 1 ELSE 0), 0, hist)
Canonical == \A k \in LaneSet : k = 0 \/ Code(k - 1) >= Code(k)
Emit == /\ Len(hist) = NFiles
        /\ Canonical
        /\ PrintT(<<"SCN", ToJson([V |-> V, pres |-> [i \in 1..NFiles |-> SetToSortSeq(hist[i], <)]])>>)
        /\ hist' = Append(hist, {}) /\ UNCHANGED <<V, a>>
Next == Detect \/ Emit
Runs(k) == LEnd(a[k])
Present(k) == {f \in 0..(Len(hist) - 1) : k \in hist[f + 1]}
(* properties of the life cycle *)
NeverSingle == \A k \in LaneSet : \A t \in Runs(k) : Cardinality(t) >= 2
StartsWithTwo == \A k \in LaneSet : \A t \in Runs(k) : (Min(t) + 1) \in t
GapsBounded == \A k \in LaneSet : \A t \in Runs(k) : \A f \in t :
                  f # Max(t) => Min({g \in t : g > f}) - f <= V + 1
Disjoint == \A k \in LaneSet : \A t, u \in Runs(k) : t # u => t \intersect u = {}
OnlyDetections == \A k \in LaneSet : UNION Runs(k) \subseteq Present(k)
(* two detections in a row always belong to one same track *)
PairsLinked == Len(hist) <= NFiles => \A k \in LaneSet : \A f \in Present(k) :
                  (f + 1) \in Present(k) => \E t \in Runs(k) : {f, f + 1} \subseteq t
=============================================================================
