----------------------------- MODULE StorageMC -----------------------------
(* Tables through chains of files: formats (Z: zarr or not) and tables of packed (R) or decoded values. Decoded values
   are known up to a little error (tenths of the packing step, E) each time they are decoded; packing takes the nearest. *)
EXTENDS Storage, TLC, Json
CONSTANTS N, MaxSteps, E
VARIABLES t, raw, err, steps, orig, opts, chain
vars == <<t, raw, err, steps, orig, opts, chain>>
F == {"a", "b"}
Tables == {[f |-> [x \in F |-> [k \in 1..n |-> <<k + (IF x = "a" THEN 10 ELSE 20)>>]], sign |-> s] : n \in 0..N, s \in {1, -1}}
Options == {[keep |-> K, from |-> a, to |-> b] : K \in {F, {"a"}}, a \in 0..1, b \in {1, N, N + 5}}
Init == /\ t \in Tables /\ raw \in BOOLEAN /\ err = 0 /\ steps = 0 /\ orig = t /\ opts = <<>> /\ chain = <<>>
(* value of an item of the table in memory, in tenths of the step *)
Held(v) == (10 * v) + (IF raw THEN 0 ELSE err)
Pack(T) == [T EXCEPT !.f = [x \in DOMAIN T.f |-> [k \in DOMAIN T.f[x] |-> [i \in DOMAIN T.f[x][k] |-> Nearest(Held(T.f[x][k][i]))]]]]
Next == /\ steps < MaxSteps
        /\ \E o \in Options, z \in BOOLEAN, r \in BOOLEAN, d \in -E..E :
             /\ o.from <= Size(t)
             /\ t' = Read(Pack(t), o) /\ opts' = Append(opts, o) /\ chain' = Append(chain, <<z, r>>)
             /\ raw' = r /\ err' = (IF r THEN 0 ELSE d)
        /\ steps' = steps + 1 /\ UNCHANGED orig
Spec == Init /\ [][Next]_vars
(* whatever the chain, what is read is the part of the first table which was asked for *)
Kept == t = Through(orig, opts)
SameSign == t.sign = orig.sign
Little == Size(t) <= Size(orig) /\ Names(t) \subseteq Names(orig)
(* generator: every chain of formats *)
GInit == /\ t = [f |-> [x \in {} |-> <<>>], sign |-> 1] /\ raw \in BOOLEAN /\ err = 0 /\ orig = t /\ opts = <<>> /\ steps = 0 /\ chain = <<>>
Emit == /\ steps = 0 /\ steps' = 1
        /\ \E n \in 1..MaxSteps : chain' \in [1..n -> BOOLEAN \X BOOLEAN]
        /\ PrintT(<<"SCN", ToJson([raw |-> raw, chain |-> chain'])>>)
        /\ UNCHANGED <<t, raw, err, orig, opts>>
=============================================================================
