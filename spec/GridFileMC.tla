----------------------------- MODULE GridFileMC -----------------------------
(* How the dataset does it: grids are kept turned (longitude first) and a mark on the description of a variable tells that
   it is the other way round on the disk; copies take the description of their source. Invariant: whatever the history,
   a file written now gives back what is in memory.                                                                    *)
EXTENDS GridFile, TLC, Json
CONSTANTS MaxOps, NX, NY
VARIABLES order, mem, mark, model, hist
vars == <<order, mem, mark, model, hist>>
Names == {"a", "b"}
All == {"a", "b", "c"}
F == [n \in Names |-> <<[i \in 1..NX |-> [j \in 1..NY |-> (IF n = "a" THEN 100 ELSE 200) + 10 * i + j]]>>]
O == [t |-> 0, x0 |-> 0, x1 |-> NX, y0 |-> 0, y1 |-> NY]
T(M) == IF M = <<>> THEN M ELSE [j \in 1..Len(M[1]) |-> [i \in 1..Len(M) |-> M[i][j]]]
(* order[n]: latitude first on the disk *)
Disk(n) == IF order[n] THEN T(F[n][1]) ELSE F[n][1]
Init == /\ order \in [Names -> BOOLEAN] /\ mem = [x \in {} |-> <<>>] /\ mark = [n \in Names |-> FALSE] /\ model = mem /\ hist = <<>>
(* description of the order on the disk, inherited by copies: origin of each name *)
Load(n) == IF Has(mem, n) THEN <<mem, mark>>
           ELSE <<Put(mem, n, IF order[n] THEN T(Disk(n)) ELSE Disk(n)), Put(mark, n, order[n])>>
DoGrid(n) == LET r == Load(n) IN mem' = r[1] /\ mark' = r[2] /\ model' = Asked(model, F, O, n, -1)
DoCopy(n, m) == LET r == Load(n) IN mem' = Put(r[1], m, r[1][n]) /\ mark' = Put(r[2], m, r[2][n]) /\ model' = Copied(model, F, O, n, m)
DoChange(n) == LET r == Load(n) IN mem' = Put(r[1], n, [r[1][n] EXCEPT ![1][NY] = 0]) /\ mark' = r[2] /\ model' = Changed(model, F, O, n, 1, NY, 0)
Known == Names \cup DOMAIN mem
Next == /\ Len(hist) < MaxOps /\ UNCHANGED order /\ hist' = Append(hist, "x")
        /\ \/ \E n \in Known : DoGrid(n)
           \/ \E n \in Known, m \in All : n # m /\ (m \notin Names) /\ DoCopy(n, m)
           \/ \E n \in Known : DoChange(n)
           \/ mem' = [x \in {} |-> <<>>] /\ mark' = [n \in Names |-> FALSE] /\ model' = mem'
Spec == Init /\ [][Next]_vars
(* orders on the disk of the file which is written: the ones of the first file *)
Written(n) == IF mark[n] THEN T(mem[n]) ELSE mem[n]
Shape(M) == <<Len(M), Len(M[1])>>
Origin(n) == IF mark[n] THEN <<NY, NX>> ELSE <<NX, NY>>
Faithful == mem = model
WrittenBack == \A n \in DOMAIN mem : Shape(Written(n)) = Origin(n) /\ (IF mark[n] THEN T(Written(n)) ELSE Written(n)) = model[n]
Marked == \A n \in DOMAIN mem \cap Names : mark[n] = order[n]
(* generator: histories of operations *)
Ops == {<<"grid", "a", "">>, <<"grid", "b", "">>, <<"copy", "a", "c">>, <<"copy", "b", "c">>, <<"set", "a", "">>, <<"set", "c", "">>, <<"tile", "a", "">>,
        <<"write", "", "">>, <<"reload", "", "">>, <<"gridt", "a", "">>, <<"add", "a", "">>}
GInit == /\ order \in [Names -> BOOLEAN] /\ mem = [x \in {} |-> <<>>] /\ mark = [n \in Names |-> FALSE] /\ model = mem /\ hist = <<>>
Fits(h) == \A k \in DOMAIN h : h[k][2] = "c" => \E l \in 1..(k - 1) : h[l][3] = "c" /\ \A q \in l..k : h[q][1] # "reload"
Emit == /\ hist = <<>>
        /\ \E n \in 1..MaxOps : hist' \in {h \in [1..n -> Ops] : Fits(h)}
        /\ PrintT(<<"SCN", ToJson([turn |-> order, ops |-> hist'])>>)
        /\ UNCHANGED <<order, mem, mark, model>>
=============================================================================
