----------------------------- MODULE MCTimeLines -----------------------------
(* Every small operator, applied to every basis vector, and chained.               *)
EXTENDS TimeLines, Json
CONSTANTS R, N, KMAX, DEPTH
VARIABLES x, z, done
vars == <<x, z, done>>
Out(m) == PrintT("@@" \o ToJson(m))
Ks == {<<k>> : k \in 0..KMAX} \cup [1..R -> 0..KMAX]
Convs == {[k |-> "conv", ks |-> ks, t |-> t] : ks \in Ks, t \in BOOLEAN}
Conv1 == {[k |-> "conv", ks |-> <<k>>, t |-> FALSE] : k \in 1..KMAX}
Rolls == {[k |-> "roll", ns |-> <<n>>, axes |-> <<d>>, t |-> FALSE] : n \in 0..N, d \in 0..1}
         \cup {[k |-> "roll", ns |-> <<n, m>>, axes |-> <<0, 1>>, t |-> FALSE] : n, m \in 0..1}
Roll1s == {[k |-> "roll", ns |-> <<n>>, axes |-> <<0>>, t |-> FALSE] : n \in 0..2}
Powers == {[k |-> "power", es |-> es, s |-> 3] : es \in {<<2>>, [i \in 1..(R * N) |-> i % 3]}}
Leaves == Convs \cup Rolls \cup Powers
Few == {c \in Convs : c.ks \in {<<1>>, [i \in 1..R |-> i % 2]}} \cup {r \in Rolls : r.ns = <<1>>} \cup Powers
Pairs == {[k |-> w, ops |-> <<a, b>>] : w \in {"chain", "sum"}, a, b \in Few}
Blocks == {[k |-> "cut", axis |-> 1, sizes |-> <<1, N - 1>>, ops |-> <<a, b>>] : a, b \in Conv1 \cup Roll1s}
          \cup {[k |-> "cut", axis |-> 0, sizes |-> <<R - 1, 1>>, ops |-> <<a, b>>] : a, b \in Conv1 \cup Roll1s}
          \cup {[k |-> "stack", axis |-> 0, ops |-> [i \in 1..R |-> IF i = 1 THEN a ELSE b]] : a, b \in Conv1 \cup Roll1s}
Fans == {[k |-> "fan", axis |-> d, ops |-> <<a, b>>] : a, b \in Roll1s \cup Conv1, d \in 0..1}
Trees == Leaves \cup Pairs \cup Blocks
Z == (N - 1) * KMAX * 2
Basis(i) == [shape |-> <<R, N>>, data |-> [j \in 1..(R * N) |-> IF j = i THEN Pow2(Z) ELSE 0]]
Init == /\ done = <<>> /\ z = Z
        /\ x = [shape |-> <<R, N>>, data |-> [j \in 1..(R * N) |-> (((5 * j) % 7) + 1) * Pow2(Z)]]
(* one operator, direct or transposed, is applied; the data are integers again afterwards if it is a roll *)
Act(op, t) == LET o == IF t THEN Transpose(op) ELSE op IN
    /\ x' = Apply(o, x, z) /\ done' = Append(done, op.k) /\ UNCHANGED z
    /\ Out([op |-> op, t |-> t, shape |-> x.shape, x |-> x.data, z |-> z, y |-> x'.data, out |-> x'.shape])
Tree == done = <<>> /\ \E op \in Trees, t \in BOOLEAN : Act(op, t)
Fan == done = <<>> /\ \E op \in Fans : Act(op, FALSE)
Rolling == Len(done) < DEPTH /\ Range(done) \subseteq {"roll"} /\ \E op \in Rolls, t \in BOOLEAN : Act(op, t)
Next == Tree \/ Fan \/ Rolling
Spec == Init /\ [][Next]_vars
Dot(a, b) == SumSeq([i \in DOMAIN a.data |-> a.data[i] * (b.data[i] \div Pow2(Z))])
First == done = <<>>
InvAdjoint == First => \A op \in Trees, i, j \in 1..(R * N) :
                 Dot(Apply(op, Basis(i), Z), Basis(j)) = Dot(Apply(Transpose(op), Basis(j), Z), Basis(i))
(* constant signals go through the convolutions unchanged *)
Flat == [shape |-> <<R, N>>, data |-> [j \in 1..(R * N) |-> 6 * Pow2(Z)]]
InvGain == First => \A op \in Convs : ~op.t => Apply(op, Flat, Z) = Flat
(* the transpose of a roll is its inverse *)
InvRoll == First => \A op \in Rolls : Apply(Transpose(op), Apply(op, x, z), z) = x
(* the output does not depend on the following samples, nor on the other rows *)
InvCausal == First => \A op \in Convs, i, j \in 1..(R * N) :
                ~op.t /\ (j < i \/ (j - 1) \div N # (i - 1) \div N) => Apply(op, Basis(i), Z).data[j] = 0
InvTwice == First => \A op \in Trees : Transpose(Transpose(op)) = op
=============================================================================
