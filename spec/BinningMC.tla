----------------------------- MODULE BinningMC -----------------------------
(* Design: the alignment as two cursors which move forward only; every pair of groupings on
   NB bins.  Scenarios: the presence of each dataset in each bin.                         *)
EXTENDS Binning, TLC, Json
CONSTANTS NB
VARIABLES A, B, all, i, j, out
vars == <<A, B, all, i, j, out>>
Seq1(S) == LET q == SetToSortSeq(S, <) IN [k \in DOMAIN q |-> <<q[k], q[k] + 1, {q[k]}>>]
Init == A \in SUBSET (1..NB) /\ B \in SUBSET (1..NB) /\ all \in BOOLEAN /\ i = 1 /\ j = 1 /\ out = <<>>
ga == Seq1(A)
gb == Seq1(B)
Done == i > Len(ga)
(* the other cursor moves while it is late *)
Skip == ~Done /\ j <= Len(gb) /\ gb[j][1] < ga[i][1] /\ j' = j + 1 /\ UNCHANGED <<A, B, all, i, out>>
Ready == ~Done /\ ~(j <= Len(gb) /\ gb[j][1] < ga[i][1])
Take == /\ Ready
        /\ IF j <= Len(gb) /\ gb[j][1] = ga[i][1] THEN out' = Append(out, <<ga[i][1], ga[i][2], ga[i][3], gb[j][3]>>)
           ELSE IF all THEN out' = Append(out, <<ga[i][1], ga[i][2], ga[i][3], {}>>)
           ELSE out' = out
        /\ i' = i + 1 /\ UNCHANGED <<A, B, all, j>>
Next == Skip \/ Take
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Emit == /\ i = 1 /\ j = 1 /\ out = <<>>
        /\ PrintT(<<"SCN", ToJson([a |-> SetToSortSeq(A, <), b |-> SetToSortSeq(B, <), all |-> all])>>)
        /\ i' = 2 /\ UNCHANGED <<A, B, all, j, out>>
(* what the cursors give is the join *)
Joined == Done => out = Align(ga, gb, all)
OnceEach == \A k, l \in DOMAIN out : k < l => out[k][1] < out[l][1]
NothingLost == (Done /\ all) => UNION {out[k][3] : k \in DOMAIN out} = A
Ends == <>Done
=============================================================================
