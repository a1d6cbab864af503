----------------------------- MODULE MCHealpix -----------------------------
(* Every pixel of small resolutions, and directions all over the sphere.             *)
EXTENDS Healpix, Json
CONSTANTS SIZES, NESTED, ZQ, TQ
VARIABLES what, x
vars == <<what, x>>
Out(m) == PrintT("@@" \o ToJson(m))
Init == \/ what = "pixel" /\ \E n \in SIZES : x \in {[n |-> n, p |-> p] : p \in 0..(NPix(n) - 1)}
        \/ what = "cell" /\ \E n \in NESTED : x \in {[n |-> n, p |-> p] : p \in 0..(NPix(n) - 1)}
        \/ what = "direction" /\ \E n \in SIZES : x \in {[n |-> n, z |-> z - ZQ, t |-> t] :
                z \in {k \in 1..((2 * ZQ) - 1) : k % 2 = 0 /\ k # ZQ}, t \in {k \in 1..((4 * TQ) - 1) : k % TQ # 0}}
CenterOf == what = "pixel" /\ what' = "center" /\ x' = Center(x.n, x.p)
            /\ Out([op |-> "center", n |-> x.n, p |-> x.p, nest |-> FALSE, c |-> x',
                    edges |-> Around(x.n, x.p, EdgeSteps), corners |-> Around(x.n, x.p, CornerSteps)])
CellCenter == what = "cell" /\ what' = "center" /\ x' = Center(x.n, RingOf(x.n, Face(x.n, x.p)))
              /\ Out([op |-> "center", n |-> x.n, p |-> x.p, nest |-> TRUE, c |-> x', edges |-> << >>, corners |-> << >>])
Locate == what = "direction" /\ what' = "pixel" /\ x' = [n |-> x.n, p |-> Pixel(x.n, x.z, ZQ, x.t, TQ)]
          /\ Out([op |-> "locate", n |-> x.n, z |-> x.z, zq |-> ZQ, t |-> x.t, tq |-> TQ, p |-> x'.p,
                  nested |-> IF x.n \in NESTED THEN Nested(x.n, CellOf(x.n, x'.p)) ELSE -1])
Next == CenterOf \/ CellCenter \/ Locate
Spec == Init /\ [][Next]_vars
(* A pixel contains its centre *)
InvContains == what = "pixel" => LET c == Center(x.n, x.p) IN Pixel(x.n, c.z, 3 * x.n * x.n, c.t, c.d) = x.p
(* The schemes number the same pixels *)
InvSchemes == what = "cell" => /\ Nested(x.n, Face(x.n, x.p)) = x.p
                               /\ CellOf(x.n, RingOf(x.n, Face(x.n, x.p))) = Face(x.n, x.p)
(* The pixels of opposite numbers are symmetric with respect to the equator *)
InvMirror == what = "pixel" => LET c == Center(x.n, x.p)
                                   d == Center(x.n, (NPix(x.n) - 1) - x.p) IN c.z = -d.z /\ c.d = d.d /\ c.t + d.t \in {4 * c.d, (4 * c.d) - (2 * (1 - (c.t % 2)))}
(* Neighbours are neighbours of one another; 24 pixels (of the larger resolutions) lack one *)
InvNeighbours == what = "pixel" =>
    LET e == Around(x.n, x.p, EdgeSteps)
        c == Around(x.n, x.p, CornerSteps)
    IN /\ Len(e) = 4
       /\ Len(c) >= (IF x.n = 1 THEN 2 ELSE 3)
       /\ \A k \in DOMAIN e : x.p \in Range(Around(x.n, e[k], EdgeSteps))
       /\ \A k \in DOMAIN c : x.p \in Range(Around(x.n, c[k], CornerSteps))
       /\ x.p \notin Range(e) \cup Range(c)
=============================================================================
