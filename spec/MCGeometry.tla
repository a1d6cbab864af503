----------------------------- MODULE MCGeometry -----------------------------
(* Every small polygon over a small grid of pixels; every small grid of squares.     *)
EXTENDS Geometry, Json
CONSTANTS LO, HI, NR, NC, RMAX
VARIABLES what, x
vars == <<what, x>>
Out(m) == PrintT("@@" \o ToJson(m))
Points == (0..(HI + LO)) \X (0..(HI + LO))
(* vertices in half pixels, from -LO to HI *)
Shift(p) == [i \in DOMAIN p |-> <<p[i][1] - LO, p[i][2] - LO>>]
Rots == {<<5, 0>>, <<0, 5>>, <<-3, 4>>, <<4, -3>>}
Init == \/ what = "polygon" /\ x \in {Shift(<<a, b, c>>) : a, b, c \in Points}
        \/ what = "quad" /\ x \in {Shift(<<a, <<0, LO>>, b, <<HI + LO, LO>>>>) : a, b \in Points}
        \/ what = "grid" /\ x \in {[nr |-> r, nc |-> c, spacing |-> s, xr |-> u, yr |-> v, rot |-> t, center |-> o, root |-> q] :
                r, c \in 1..RMAX, s \in {1, 3}, u, v \in BOOLEAN, t \in Rots, o \in {<<0, 0>>, <<16, -3>>}, q \in {2, 4}}
Integrate == what \in {"polygon", "quad"} /\ what' = "row" /\ x' = Row(Scale(x, 2), NR, NC)
             /\ Out([op |-> "integrate", p |-> x, nr |-> NR, nc |-> NC, row |-> x', outside |-> Beyond(Scale(x, 2), NR, NC)])
Squares(g) == [i \in 1..g.nr |-> [j \in 1..g.nc |-> Square(g, i, j)]]
Nodes(g) == [i \in 1..g.nr |-> [j \in 1..g.nc |-> Node(g, i, j)]]
Build == what = "grid" /\ what' = "squares" /\ x' = Squares(x)
         /\ Out([op |-> "grid", g |-> x, squares |-> x', nodes |-> Nodes(x)])
Next == Integrate \/ Build
Spec == Init /\ [][Next]_vars
(* The pixels share out the area of the polygon, whatever its first vertex and orientation *)
Padded(p) == SumSeq([j \in 1..((NR + 4) * (NC + 4)) |-> Inside(p, ((j - 1) \div (NC + 4)) - 2, ((j - 1) % (NC + 4)) - 2)])
InvArea == what = "polygon" => LET p == Scale(x, 2) IN Near(Padded(p), (Abs(Shoelace(x)) * ONE) \div 8, 2 * (NR + 4) * (NC + 4))
InvTurn == what = "polygon" => LET p == Scale(x, 2) IN
    \A j \in 1..(NR * NC) : /\ Inside(p, (j - 1) \div NC, (j - 1) % NC) \in 0..ONE
                            /\ Near(Inside(<<p[2], p[3], p[1]>>, (j - 1) \div NC, (j - 1) % NC), Inside(p, (j - 1) \div NC, (j - 1) % NC), 4)
                            /\ Near(Inside(<<p[3], p[2], p[1]>>, (j - 1) \div NC, (j - 1) % NC), Inside(p, (j - 1) \div NC, (j - 1) % NC), 4)
(* The squares have the area of the placeholders times the filling factor, around the nodes; the opposite nodes are symmetric *)
InvSquares == what = "grid" => \A i \in 1..x.nr, j \in 1..x.nc :
    LET s == Square(x, i, j)
        o == Node(x, i, j)
        m == Node(x, (x.nr + 1) - i, (x.nc + 1) - j)
    IN /\ Abs(Shoelace(s)) = 2 * ((2 * 5 * x.spacing * x.root) ^ 2)
       /\ (Shoelace(s) > 0) = (x.xr = x.yr)
       /\ \A a \in 1..2 : /\ s[1][a] + s[2][a] + s[3][a] + s[4][a] = 4 * o[a]
                          /\ o[a] + m[a] = 10 * x.center[a]
=============================================================================
