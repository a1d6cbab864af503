------------------------------ MODULE MCNoise ------------------------------
(* All small spectra: folding, and the inverse covariance against the covariance.   *)
EXTENDS Noise, Json
CONSTANTS VALUES, KNEES, SLOPES, SIZES
VARIABLES p, shape
vars == <<p, shape>>
Out(m) == PrintT("@@" \o ToJson(m))
Even(n) == [1..n -> VALUES]
Init == \/ \E n \in SIZES : p \in {q \in Even(n) : Symmetric(q)} /\ shape = "two"
        \/ \E n \in SIZES : p \in {[kind |-> "knee", sigma2 |-> s, fknee |-> k, slope |-> a, n |-> n, fs |-> f] :
                s \in {<<1, 1>>, <<4, 1>>}, k \in {<<x, y>> : x \in KNEES, y \in {1, 2}}, a \in SLOPES, f \in {<<1, 1>>, <<2, 1>>}}
           /\ shape = "model"
FoldIt == shape = "two" /\ p' = Fold(p) /\ shape' = "one" /\ Out([op |-> "fold", x |-> p, y |-> p'])
UnfoldIt == shape = "one" /\ p' = Unfold(p) /\ shape' = "two" /\ Out([op |-> "unfold", x |-> p, y |-> p'])
Ramp(n) == [t \in 1..n |-> (3 * t) % 5]
Weigh == shape = "model" /\ p' = Weighted(Row(p, p.n, p.fs), p.n - 1, Ramp(p.n)) /\ shape' = "weighted"
         /\ Out([op |-> "invntt", model |-> p, x |-> Ramp(p.n), y |-> p'])
Next == FoldIt \/ UnfoldIt \/ Weigh
Spec == Init /\ [][Next]_vars
InvFold == shape = "two" => /\ Unfold(Fold(p)) = p /\ Symmetric(p)
                            /\ SumSeq(Fold(p)) = SumSeq(p)
(* For sizes which are powers of two, the covariance (up to the mean) times the inverse covariance is the identity: *)
(* filtering twice, then weighting, gives back the fluctuations *)
Twice(z, a) == Drawn(a, a.fs, Drawn(a, a.fs, z))
InvInverse == (shape = "model" /\ p.n \in {2, 4, 8} /\ LE(Variance(p, 1, p.n, p.fs), <<16, 1>>)) =>
    LET z == [t \in 1..p.n |-> IF t = 1 THEN 1024 * (p.n - 1) ELSE -1024]
        y == Twice(z, p)
        row == Row(p, p.n, p.fs)
        x == [t \in 1..p.n |-> SumSeq([u \in 1..p.n |-> (row[((t - u) % p.n) + 1] \div 4) * (y[u] \div 8)]) \div 128]
    IN Near(x, z, 80)
InvSymmetric == shape = "model" => LET r == Row(p, p.n, p.fs) IN \A j \in 2..Len(r) : Abs(r[j] - r[Len(r) + 2 - j]) <= 1
=============================================================================
