------------------------------ MODULE Geometry ------------------------------
(* Plane geometry: polygons over a grid of pixels, grids of points and of squares,   *)
(* rotations, regular polygons, areas, segmentation and convex hulls.              *)
EXTENDS Common
ONE == 2048
Det(p, q) == (p[1] * q[2]) - (p[2] * q[1])
Sub(p, q) == <<p[1] - q[1], p[2] - q[2]>>
Succ(p, i) == p[(i % Len(p)) + 1]
(* twice the signed area *)
Shoelace(p) == SumSeq([i \in DOMAIN p |-> Det(p[i], Succ(p, i))])

(* ---- intersection of a polygon with the unit squares of a grid ---- *)
(* point of abscissa c (axis a) of the segment p q *)
Cut(p, q, a, c) ==
    LET b == 3 - a
        u == IF p[a] < q[a] THEN p ELSE q
        v == IF p[a] < q[a] THEN q ELSE p
        w == u[b] + (((c - u[a]) * (v[b] - u[b])) \div (v[a] - u[a]))
    IN IF a = 1 THEN <<c, w>> ELSE <<w, c>>
Side(p, a, c, sign) == sign * (p[a] - c)
RECURSIVE ClipFrom(_, _, _, _, _)
ClipFrom(p, i, a, c, sign) ==
    IF i > Len(p) THEN << >>
    ELSE LET u == p[i]
             v == Succ(p, i)
             su == Side(u, a, c, sign)
             sv == Side(v, a, c, sign)
         IN (IF su >= 0 THEN <<u>> ELSE << >>)
            \o (IF (su > 0 /\ sv < 0) \/ (su < 0 /\ sv > 0) THEN <<Cut(u, v, a, c)>> ELSE << >>)
            \o ClipFrom(p, i + 1, a, c, sign)
Clip(p, a, c, sign) == ClipFrom(p, 1, a, c, sign)
(* area inside the pixel (row r, column k), whose centre is (k, r), in units of 1 / ONE *)
Inside(p, r, k) ==
    LET q == [i \in DOMAIN p |-> <<p[i][1] - (k * ONE) + (ONE \div 2), p[i][2] - (r * ONE) + (ONE \div 2)>>]
        c == Clip(Clip(Clip(Clip(q, 1, 0, 1), 1, ONE, -1), 2, 0, 1), 2, ONE, -1)
    IN IF c = << >> THEN 0 ELSE Abs(Shoelace(c)) \div (2 * ONE)
(* a polygon whose coordinates are in units of 1 / d *)
Scale(p, d) == [i \in DOMAIN p |-> <<p[i][1] * (ONE \div d), p[i][2] * (ONE \div d)>>]
Row(p, nr, nc) == [j \in 1..(nr * nc) |-> Inside(p, (j - 1) \div nc, (j - 1) % nc)]
Beyond(p, nr, nc) == \E i \in DOMAIN p : \/ p[i][1] < -(ONE \div 2) \/ p[i][1] > (nc * ONE) - (ONE \div 2)
                                         \/ p[i][2] < -(ONE \div 2) \/ p[i][2] > (nr * ONE) - (ONE \div 2)

(* ---- rotations: <<c, s>> stands for the cosine c / 5 and the sine s / 5 ---- *)
Turn(p, r) == <<(p[1] * r[1]) - (p[2] * r[2]), (p[1] * r[2]) + (p[2] * r[1])>>
(* grids: rows go down, columns to the right, before the reflections, the rotation and the translation; *)
(* spacing in whole units, results in units of 1 / 40, centre in units of 1 / 8 *)
Flip(p, xr, yr) == <<IF xr THEN -p[1] ELSE p[1], IF yr THEN -p[2] ELSE p[2]>>
At(p, g) == LET t == Turn(Flip(p, g.xr, g.yr), g.rot) IN <<t[1] + (5 * g.center[1]), t[2] + (5 * g.center[2])>>
Place(g, i, j) == <<((2 * j) - (g.nc + 1)) * 4 * g.spacing, ((g.nr + 1) - (2 * i)) * 4 * g.spacing>>
Node(g, i, j) == At(Place(g, i, j), g)
Corners == <<<<1, 1>>, <<-1, 1>>, <<-1, -1>>, <<1, -1>>>>
(* side of the squares: root / 4 of the spacing *)
Square(g, i, j) == LET o == Place(g, i, j)
                   IN [k \in 1..4 |-> At(<<o[1] + (Corners[k][1] * g.spacing * g.root), o[2] + (Corners[k][2] * g.spacing * g.root)>>, g)]
Rectangle(w, h) == [k \in 1..4 |-> <<Corners[k][1] * w, Corners[k][2] * h>>]   \* in half units

(* ---- multiples of 15 degrees, in units of 1 / 4096 ---- *)
Quarter == <<4096, 3956, 3547, 2896, 2048, 1060, 0>>
Cos15(k) == LET m == k % 24 IN IF m <= 6 THEN Quarter[m + 1] ELSE IF m <= 12 THEN -Quarter[13 - m]
                               ELSE IF m <= 18 THEN -Quarter[m - 11] ELSE Quarter[25 - m]
Sin15(k) == Cos15(k + 18)
Regular(n, radius, center, k0) == [i \in 1..n |-> LET k == k0 + ((i - 1) * (24 \div n))
                                                  IN <<(radius * Cos15(k)) + (4096 * center[1]), (radius * Sin15(k)) + (4096 * center[2])>>]
(* ---- segmentation: least number of parts whose lengths do not exceed m / 4 ---- *)
RECURSIVE Parts(_, _, _)
Parts(d2, m, n) == IF n * n * m * m >= 16 * d2 THEN n ELSE Parts(d2, m, n + 1)
Norm2(p) == (p[1] * p[1]) + (p[2] * p[2])
RECURSIVE SegFrom(_, _, _)
SegFrom(p, m, i) == IF i > Len(p) THEN << >>
                    ELSE LET d == Sub(Succ(p, i), p[i])
                             n == Parts(Norm2(d), m, 0)
                         IN [k \in 1..n |-> [x |-> <<(p[i][1] * n) + ((k - 1) * d[1]), (p[i][2] * n) + ((k - 1) * d[2])>>, n |-> n]]
                            \o SegFrom(p, m, i + 1)
Segments(p, m) == SegFrom(p, m, 1)
(* ---- convex hulls ---- *)
IsHull(h, pts) ==
    /\ Len(h) >= 3
    /\ \A i \in DOMAIN h : h[i] \in {pts[j] : j \in DOMAIN pts}
    /\ \A i, j \in DOMAIN h : i # j => h[i] # h[j]
    /\ \A i \in DOMAIN h, j \in DOMAIN pts : Det(Sub(Succ(h, i), h[i]), Sub(pts[j], h[i])) >= 0
    (* one turn *)
    /\ Cardinality({i \in DOMAIN h : h[i][2] < Succ(h, i)[2] /\ Succ(h, i)[2] >= Succ(h, (i % Len(h)) + 1)[2]}) <= 1
Near(a, b, tol) == Abs(a - b) <= tol
Near2(p, q, tol) == Near(p[1], q[1], tol) /\ Near(p[2], q[2], tol)
Near3(p, q, tol) == Len(p) = Len(q) /\ \A i \in DOMAIN p : Near2(p[i], q[i], tol)
=============================================================================
