-------------------------------- MODULE Headers --------------------------------
(* FITS headers: the array and the linear world coordinate system they describe.  *)
(* Units: 1/2 pixel for the pixel coordinates, 1/8 degree per pixel for the       *)
(* matrix cd, so 1/16 degree (U) for the world coordinates.                       *)
EXTENDS Common

DEG == 16
TURN == 360 * DEG

(* exact rotations: <<5 cos, 5 sin>> of the position angle of index 1..12 *)
ROTS == << <<5, 0>>, <<0, 5>>, <<-5, 0>>, <<0, -5>>,
           <<4, 3>>, <<3, 4>>, <<-3, 4>>, <<-4, 3>>, <<-4, -3>>, <<-3, -4>>, <<3, -4>>, <<4, -3>> >>
(* rotation after half a turn *)
Half(t) == CHOOSE u \in DOMAIN ROTS : ROTS[u] = <<-ROTS[t][1], -ROTS[t][2]>>

(* cd = diag(cdelt) . rotation(-pa); c: cdelt in units of 5 cd *)
CD(c, t) == LET co == ROTS[t][1]
                si == -ROTS[t][2]
            IN << <<c[1] * co, c[1] * si>>, <<-c[2] * si, c[2] * co>> >>
Det(cd) == cd[1][1] * cd[2][2] - cd[1][2] * cd[2][1]
(* cdelt and position angle of a matrix without shear: cdelt2 is positive *)
Sg(x) == IF x < 0 THEN -1 ELSE 1
Decomposed(c, t) == IF c[2] > 0 THEN <<c, t>> ELSE << <<-c[1], -c[2]>>, Half(t) >>

(* the header h has a coordinate system: h.w = << [crval, crpix, cd, ctype, ...] >> *)
HasWCS(h) == h.w # <<>>
ShapeOf(h) == [i \in 1..Len(h.naxis) |-> h.naxis[Len(h.naxis) + 1 - i]]

(* ctype 1: longitudes and latitudes (plate carree), 2: linear axes *)
Wrap(x) == x % TURN
World(w, p) ==
    LET dx == p[1] - w.crpix[1]
        dy == p[2] - w.crpix[2]
        x == w.crval[1] * DEG + w.cd[1][1] * dx + w.cd[1][2] * dy
        y == w.crval[2] * DEG + w.cd[2][1] * dx + w.cd[2][2] * dy
    IN IF w.ctype = 1 THEN <<Wrap(x), y>> ELSE <<x, y>>
(* the part of the plane where plate carree coordinates are not ambiguous *)
InPlane(w, p) ==
    w.ctype = 1 =>
    LET q == World(w, p)
        dx == p[1] - w.crpix[1]
        dy == p[2] - w.crpix[2]
    IN /\ Abs(q[2]) < 90 * DEG
       /\ Abs(w.cd[1][1] * dx + w.cd[1][2] * dy) < 180 * DEG
ToPixelOf(w, p, q) ==    \* p is the pixel of world coordinates q
    InPlane(w, p) /\ World(w, p) = q

(* ---- numbers on a circle of TURNs ---- *)
Arc(a, v, n) == (v - a) % n
(* the values lie in the arc that starts at a, less than a quarter of turn *)
FromOf(vs, n) == {a \in Range(vs) : \A i \in DOMAIN vs : 4 * Arc(a, vs[i], n) < n}
(* n times the mean, modulo n turns *)
MeanN(vs, n) == LET a == CHOOSE a \in FromOf(vs, n) : TRUE
                IN (Len(vs) * a + SumSeq([i \in DOMAIN vs |-> Arc(a, vs[i], n)])) % (n * Len(vs))
MinArc(vs, n) == CHOOSE a \in FromOf(vs, n) : TRUE
MaxArc(vs, n) == LET a == MinArc(vs, n)
                     m == CHOOSE m \in Range(vs) : \A i \in DOMAIN vs : Arc(a, vs[i], n) <= Arc(a, m, n)
                 IN m % n
(* angle between two points which are both on the equator or on the same meridian circle *)
(* <<"eq", lon>> or <<"mer", l>> where l goes round the meridian circle              *)
Angle(a, b) == LET d == (a - b) % 360 IN Min2(d, 360 - d)
=============================================================================
