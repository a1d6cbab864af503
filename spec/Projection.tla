------------------------------ MODULE Projection ------------------------------
(* Pointing matrices: for each sample, the pixels it sees and their weights.      *)
(* A row is a sequence of <<pixel, weight>>; the pixel -1 ends the row. Weights   *)
(* are in quarters. On-the-fly projections share one place for their matrices.    *)
EXTENDS Common

(* entries of a row, up to the first -1 *)
RECURSIVE Eff(_)
Eff(row) == IF row = <<>> THEN <<>>
            ELSE IF Head(row)[1] = -1 THEN <<>>
            ELSE <<Head(row)>> \o Eff(Tail(row))
Effs(rows) == [s \in DOMAIN rows |-> Eff(rows[s])]

Valid(rows, np) == \A s \in DOMAIN rows : \A k \in DOMAIN rows[s] : rows[s][k][1] \in -1..(np - 1)

(* 4 P x *)
Dot(row, x) == LET e == Eff(row) IN SumSeq([k \in DOMAIN e |-> e[k][2] * x[e[k][1] + 1]])
Direct(rows, x) == [s \in DOMAIN rows |-> Dot(rows[s], x)]

(* weight of the pixel p (from 0) in a row *)
Weight(row, p) == LET e == Eff(row) IN SumSeq([k \in DOMAIN e |-> IF e[k][1] = p THEN e[k][2] ELSE 0])
(* 4 P^T y *)
Back(rows, np, y) == [p \in 1..np |-> SumSeq([s \in DOMAIN rows |-> Weight(rows[s], p - 1) * y[s]])]
(* 16 P^T P *)
PTP(rows, np) == [p \in 1..np |-> [q \in 1..np |->
                   SumSeq([s \in DOMAIN rows |-> Weight(rows[s], p - 1) * Weight(rows[s], q - 1)])]]

(* pixels which are not seen: mask0 is the initial mask *)
Seen(rows, p) == \E s \in DOMAIN rows : LET e == Eff(rows[s]) IN \E k \in DOMAIN e : e[k][1] = p /\ e[k][2] # 0
MaskOf(rows, np, mask0) == [p \in 1..np |-> mask0[p] /\ ~Seen(rows, p - 1)]

(* packing: rank of the pixel p among those which are not masked *)
Rank(mask, p) == Cardinality({q \in 1..p : ~mask[q]})
PackRow(row, mask) ==
    LET e == SelectSeq(Eff(row), LAMBDA x : x[2] # 0 /\ ~mask[x[1] + 1])
    IN [k \in DOMAIN e |-> <<Rank(mask, e[k][1]), e[k][2]>>]
Pack(rows, mask) == [s \in DOMAIN rows |-> PackRow(rows[s], mask)]
Kept(mask) == Cardinality({p \in DOMAIN mask : ~mask[p]})
PackMap(x, mask) == LET ps == SortedFrom({p \in DOMAIN mask : ~mask[p]}, 1, Len(mask)) IN [k \in DOMAIN ps |-> x[ps[k]]]

(* masked samples do not see anything: their weights are null *)
ApplyMask(rows, m) == [s \in DOMAIN rows |-> IF m[s] THEN [k \in DOMAIN rows[s] |-> <<rows[s][k][1], 0>>] ELSE rows[s]]

(* unmasked back projection and coverage *)
Zeroed(y, m) == [s \in DOMAIN y |-> IF m[s] THEN 0 ELSE y[s]]
One(n) == [i \in 1..n |-> 1]

(* ---- on-the-fly projections: cached is <<>> or <<identifier>> ---- *)
Calls(cached, id) == IF cached = <<id>> THEN 0 ELSE 1
After(cached, id, fails) == IF cached = <<id>> THEN cached ELSE IF fails THEN <<>> ELSE <<id>>
Outcome(cached, id, fails) == IF cached # <<id>> /\ fails THEN "raises" ELSE "ok"
=============================================================================
