----------------------------- MODULE TrackingMC -----------------------------
(* Exhaustive configuration of Tracking: every file size, every one-to-one set of
   associations from real and predicted rows, every bridging depth.              *)
EXTENDS Tracking
CONSTANTS MaxObs, MaxFiles, MaxV
VARIABLE s
Init == \E V \in 0..MaxV : \E n \in 0..MaxObs : s = SInit(V, n)

(* predicted rows are listed after the real ones, by identity *)
VirtSeq == SetToSortSeq(s.virt, LAMBDA a, b : a[1] < b[1])
Sources == 0..(LastSize(s) + Cardinality(s.virt) - 1)
IsVirt(i) == i >= LastSize(s)
PartialMaps(n) == UNION {{f \in [S -> 0..(n - 1)] : IsInjective(f)} : S \in SUBSET Sources}
LinksOf(f) ==
  LET src == SetToSortSeq(DOMAIN f, <)
      fresh(k) == Cardinality({j \in 1..k : ~IsVirt(src[j]) /\ s.ids[src[j] + 1] = -1}) - 1
  IN [k \in 1..Len(src) |->
       IF IsVirt(src[k])
       THEN [in |-> src[k], out |-> f[src[k]], v |-> TRUE,
             id |-> VirtSeq[src[k] - LastSize(s) + 1][1], vl |-> VirtSeq[src[k] - LastSize(s) + 1][2]]
       ELSE [in |-> src[k], out |-> f[src[k]], v |-> FALSE, vl |-> 0,
             id |-> IF s.ids[src[k] + 1] = -1 THEN s.next + fresh(k) ELSE s.ids[src[k] + 1]]]
NewFile == /\ Len(s.sizes) < MaxFiles
           /\ \E n \in 0..MaxObs : \E f \in PartialMaps(n) :
                LET e == [n |-> n, links |-> LinksOf(f)] IN
                  StepOK(s, e) /\ s' = SStep(s, e)
Next == NewFile
Spec == Init /\ [][Next]_s
InvOneTrackPerObs == OneTrackPerObs(s)
InvOneObsPerFile == OneObsPerFile(s)
InvGapsBounded == GapsBounded(s)
InvIdsDense == IdsDense(s)
InvVirtOK == VirtOK(s)
InvLength == LengthIsLinksPlusBridges(s)
(* identities never change once given, and the record of past links only grows *)
Grows == [][IsPrefix(s.links, s'.links) /\ s'.next >= s.next]_s
=============================================================================
