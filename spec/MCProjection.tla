----------------------------- MODULE MCProjection -----------------------------
(* Every small pointing matrix, packed and masked; on-the-fly groups.             *)
EXTENDS Projection, Json
CONSTANTS NP, NS, NE, VS, DEPTH, NIDS
VARIABLES pc, rows, np, cached, path
vars == <<pc, rows, np, cached, path>>
Out(m) == PrintT("@@" \o ToJson(m))
Entries == {<<p, v>> : p \in 0..(NP - 1), v \in VS}
End == <<0 - 1, 0>>
RowsOf == {[k \in 1..NE |-> IF k <= Len(e) THEN e[k] ELSE End] : e \in UNION {[1..n -> Entries] : n \in 0..NE}}
Init == \/ /\ pc = "matrix" /\ rows \in [1..NS -> RowsOf] /\ np = NP /\ cached = <<>> /\ path = <<>>
        \/ /\ pc = "fly" /\ rows = <<>> /\ np = 0 /\ cached = <<>> /\ path = <<>>
X == [p \in 1..NP |-> 2 * p + 1]
Y == [s \in 1..NS |-> 3 * s - 1]
Observe == /\ pc = "matrix" /\ pc' = "observed" /\ UNCHANGED <<rows, np, cached, path>>
           /\ Out([op |-> "observe", rows |-> rows, np |-> np, x |-> X, y |-> Y, direct |-> Direct(rows, X),
                   back |-> Back(rows, np, Y), ptp |-> PTP(rows, np), mask |-> MaskOf(rows, np, [p \in 1..np |-> TRUE])])
DoPack == /\ pc = "matrix" /\ pc' = "packed"
          /\ \E mask \in [1..NP -> BOOLEAN] :
               /\ rows' = Pack(rows, mask) /\ np' = Kept(mask)
               /\ path' = <<mask, rows>>
               /\ Out([op |-> "pack", rows |-> rows, np |-> np, mask |-> mask, post |-> rows', keep |-> np'])
          /\ UNCHANGED cached
DoApply == /\ pc = "matrix" /\ pc' = "masked"
           /\ \E m \in [1..NS -> BOOLEAN] :
                /\ rows' = ApplyMask(rows, m)
                /\ path' = <<m, rows>>
                /\ Out([op |-> "apply", rows |-> rows, np |-> np, m |-> m, post |-> rows'])
           /\ UNCHANGED <<np, cached>>
Use == /\ pc = "fly" /\ Len(path) < DEPTH
       /\ \E id \in 1..NIDS : \E fails \in BOOLEAN :
            /\ cached' = After(cached, id, fails)
            /\ path' = Append(path, [id |-> id, fails |-> fails, calls |-> Calls(cached, id), st |-> Outcome(cached, id, fails)])
            /\ (Len(path') = DEPTH => Out([op |-> "fly", path |-> path']))
       /\ UNCHANGED <<pc, rows, np>>
Next == Observe \/ DoPack \/ DoApply \/ Use
Spec == Init /\ [][Next]_vars

Units(n) == {[i \in 1..n |-> IF i = j THEN 1 ELSE 0] : j \in 1..n}
Inner(a, b) == SumSeq([i \in DOMAIN a |-> a[i] * b[i]])
(* the back projection is the adjoint of the projection *)
InvAdjoint == pc = "matrix" => \A x \in Units(np) : \A y \in Units(NS) :
                 Inner(Direct(rows, x), y) = Inner(x, Back(rows, np, y))
InvPTP == pc = "matrix" => LET m == PTP(rows, np) IN
             \A p, q \in 1..np : m[p][q] = m[q][p] /\ m[p][q] = Back(rows, np, Direct(rows, [i \in 1..np |-> IF i = q THEN 1 ELSE 0]))[p]
(* packing the unseen pixels does not change the projection, and all the pixels are then seen *)
InvPack == pc = "packed" => LET mask == path[1] rows0 == path[2] IN
             /\ \A x \in Units(NP) : (\A p \in 1..NP : mask[p] => x[p] = 0) => Direct(rows, PackMap(x, mask)) = Direct(rows0, x)
             /\ (mask = MaskOf(rows0, NP, [p \in 1..NP |-> TRUE]) =>
                   \A p \in 1..np : ~MaskOf(rows, np, [q \in 1..np |-> TRUE])[p])
             /\ Valid(rows, np)
InvApply == pc = "masked" => LET m == path[1] rows0 == path[2] IN
             \A x \in Units(NP) : Direct(rows, x) = Zeroed(Direct(rows0, x), m)
(* the place never holds the matrix of another operator *)
InvFly == pc = "fly" /\ path # <<>> /\ path[Len(path)].st = "ok" => cached = <<path[Len(path)].id>>
InvFail == pc = "fly" /\ path # <<>> /\ path[Len(path)].st # "ok" => cached = <<>>
=============================================================================
