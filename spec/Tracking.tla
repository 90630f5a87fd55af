------------------------------ MODULE Tracking ------------------------------
(* The life cycle of track identities while identification files are linked
   one after the other, as Correspondances does it.
   An event e = [n, links] is the processing of one more file holding n
   observations; links is the sequence of associations that were kept:
     [in, out, id, v, vl]   in : row in the previous file (rows >= size of that
                                 file are predicted "virtual" rows),
                            out: row in the new file,  id: track identity,
                            v  : the association starts from a virtual row,
                            vl : how many files were bridged (0 when ~v).      *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions, TLC

SInit(V, n0) == [V |-> V, sizes |-> <<n0>>, ids |-> [i \in 1..n0 |-> -1],
                 virt |-> {}, next |-> 0, links |-> <<>>]

LastSize(s) == s.sizes[Len(s.sizes)]
IdsOf(L) == {L[k].id : k \in DOMAIN L}
PrevIds(s) == {s.ids[i] : i \in DOMAIN s.ids} \ {-1}
Missed(s, id) == (CHOOSE w \in s.virt : w[1] = id)[2]

(* What makes a step illegal; the action is enabled when every clause holds.    *)
StructClauses(s, e) ==
  LET L == e.links  K == DOMAIN L IN
  [ fields_in_range |-> \A k \in K : /\ L[k].in >= 0 /\ L[k].out >= 0 /\ L[k].out < e.n
                                     /\ L[k].id >= 0
                                     /\ (L[k].v => s.V > 0 /\ L[k].in >= LastSize(s))
                                     /\ (~L[k].v => L[k].in < LastSize(s)) ]

StepClauses(s, e) ==
  LET L == e.links  K == DOMAIN L
      real == {k \in K : ~L[k].v}   vir == {k \in K : L[k].v}
      new  == {k \in real : s.ids[L[k].in + 1] = -1}
  IN
  [ start_used_once   |-> Cardinality({L[k].in : k \in K}) = Len(L),
    end_used_once     |-> Cardinality({L[k].out : k \in K}) = Len(L),
    identity_used_once|-> Cardinality(IdsOf(L)) = Len(L),
    identity_inherited|-> \A k \in real \ new : L[k].id = s.ids[L[k].in + 1],
    identity_fresh    |-> {L[k].id : k \in new} = s.next..(s.next + Cardinality(new) - 1),
    bridge_identity   |-> \A k \in vir : \E w \in s.virt : w[1] = L[k].id,
    bridge_length     |-> \A k \in vir : (\E w \in s.virt : w[1] = L[k].id)
                                            => Missed(s, L[k].id) = L[k].vl ]

StepOK(s, e) == /\ \A c \in DOMAIN StructClauses(s, e) : StructClauses(s, e)[c]
                /\ \A c \in DOMAIN StepClauses(s, e) : StepClauses(s, e)[c]

SStep(s, e) ==
  LET L == e.links
      kept == IdsOf(L)
      dead == PrevIds(s) \ kept
      ext  == {w \in s.virt : w[1] \notin kept /\ w[2] < s.V}
      idat(o) == IF \E k \in DOMAIN L : L[k].out = o
                 THEN L[CHOOSE k \in DOMAIN L : L[k].out = o].id ELSE -1
      news == {k \in DOMAIN L : ~L[k].v /\ s.ids[L[k].in + 1] = -1}
  IN [s EXCEPT
        !.sizes = Append(@, e.n),
        !.ids   = [o \in 1..e.n |-> idat(o - 1)],
        !.virt  = IF s.V = 0 THEN {}
                  ELSE {<<i, 1>> : i \in dead} \union {<<w[1], w[2] + 1>> : w \in ext},
        !.next  = @ + Cardinality(news),
        !.links = Append(@, L) ]

(* ------------------------------------------------------------------------- *)
(* Derived: which observation (file, row) belongs to which track.             *)
Rows(links) ==
  UNION {UNION {{<<links[t][k].id, t, links[t][k].out>>} \union
                (IF links[t][k].v THEN {} ELSE {<<links[t][k].id, t - 1, links[t][k].in>>})
                : k \in DOMAIN links[t]} : t \in DOMAIN links}
TrackRows(R, id) == {r \in R : r[1] = id}
FirstFile(R, id) == Min({r[2] : r \in TrackRows(R, id)})
LastFile(R, id) == Max({r[2] : r \in TrackRows(R, id)})
TrackLen(R, id) == LastFile(R, id) - FirstFile(R, id) + 1

(* The merged table: for each track in increasing identity, one row for every file
   between its first and last one; src = -1 when that file was bridged.          *)
SrcAt(R, id, f) == IF \E r \in TrackRows(R, id) : r[2] = f
                   THEN (CHOOSE r \in TrackRows(R, id) : r[2] = f)[3] ELSE -1
TrackTable(R, id, newid) ==
  [j \in 1..TrackLen(R, id) |->
     [t |-> newid, n |-> j - 1, f |-> FirstFile(R, id) + j - 1,
      src |-> SrcAt(R, id, FirstFile(R, id) + j - 1)]]
RECURSIVE TableOf(_, _, _)
TableOf(R, idseq, k) == IF k > Len(idseq) THEN <<>>
                        ELSE TrackTable(R, idseq[k], k - 1) \o TableOf(R, idseq, k + 1)
IdSeq(S) == SetToSortSeq(S, <)

(* ------------------------------------------------------------------------- *)
(* Properties of the design, over the history of links.                       *)
OneTrackPerObs(s) == LET R == Rows(s.links) IN
  \A a \in R : \A b \in R : (a[2] = b[2] /\ a[3] = b[3]) => a[1] = b[1]
OneObsPerFile(s) == LET R == Rows(s.links) IN
  \A a \in R : \A b \in R : (a[1] = b[1] /\ a[2] = b[2]) => a[3] = b[3]
GapsBounded(s) == LET R == Rows(s.links) IN
  \A id \in 0..(s.next - 1) :
    LET F == {r[2] : r \in TrackRows(R, id)} IN
      \A a \in F : a # Max(F) => Min({b \in F : b > a}) - a <= s.V + 1
IdsDense(s) == {r[1] : r \in Rows(s.links)} = 0..(s.next - 1)
VirtOK(s) == \A w \in s.virt : w[2] >= 1 /\ w[2] <= s.V
                 /\ w[2] = Len(s.sizes) - 1 - LastFile(Rows(s.links), w[1])
LengthIsLinksPlusBridges(s) == LET R == Rows(s.links) IN
  \A id \in 0..(s.next - 1) :
    TrackLen(R, id) = 1 + Cardinality({t \in DOMAIN s.links : id \in IdsOf(s.links[t])})
       + FoldFunction(+, 0, [t \in DOMAIN s.links |->
            FoldFunction(+, 0, [k \in DOMAIN s.links[t] |->
               IF s.links[t][k].id = id THEN s.links[t][k].vl ELSE 0])])
=============================================================================
