------------------------------ MODULE Healpix ------------------------------
(* The HEALPix pixelisation of the sphere with resolution n: ring and nested numbers of the   *)
(* pixels, their centres, the pixel in a direction, the neighbours and their laplacian.    *)
(* Heights are fractions, azimuths fractions of a right angle.                      *)
EXTENDS Images
NPix(n) == 12 * n * n
Cap(n) == 2 * n * (n - 1)
RECURSIVE RingFrom(_, _)
RingFrom(p, i) == IF 2 * i * (i + 1) > p THEN i ELSE RingFrom(p, i + 1)
(* z in units of 1 / (3 n^2), azimuth t / d *)
Center(n, p) ==
    IF p < Cap(n) THEN LET i == RingFrom(p, 1)
                       IN [z |-> (3 * n * n) - (i * i), t |-> (2 * (p - (2 * i * (i - 1)))) + 1, d |-> 2 * i]
    ELSE IF p >= NPix(n) - Cap(n)
         THEN LET i == RingFrom((NPix(n) - 1) - p, 1)
                  j == ((4 * i) - 1) - (((NPix(n) - 1) - p) - (2 * i * (i - 1)))
              IN [z |-> (i * i) - (3 * n * n), t |-> (2 * j) + 1, d |-> 2 * i]
         ELSE LET q == p - Cap(n)
                  i == (q \div (4 * n)) + n
              IN [z |-> ((2 * n) - i) * 2 * n, t |-> (2 * (q % (4 * n))) + (((i - n) + 1) % 2), d |-> 2 * n]
(* pixel (ring scheme) in the direction of height za / zq and azimuth tb / tq, zq and tq positive *)
RECURSIVE Below(_, _, _)
Below(k, a, b) == IF (k + 1) * (k + 1) * a > b THEN k ELSE Below(k + 1, a, b)    \* integer part of sqrt(b / a)
Pixel(n, za, zq, tb, tq) ==
    LET t == tb % (4 * tq) IN
    IF 3 * Abs(za) <= 2 * zq
    THEN LET u == n * ((2 * zq * tq) + (4 * zq * t))
             v == 3 * n * za * tq
             jp == (u - v) \div (4 * zq * tq)
             jm == (u + v) \div (4 * zq * tq)
             ir == (n + 1 + jp) - jm
             shift == 1 - (ir % 2)
             ip == (((jp + jm + shift + 1) - n) \div 2) % (4 * n)
         IN Cap(n) + ((ir - 1) * 4 * n) + ip
    ELSE LET f == t % tq
             w == 3 * n * n * (zq - Abs(za))
             jp == Below(0, tq * tq * zq, f * f * w)
             jm == Below(0, tq * tq * zq, (tq - f) * (tq - f) * w)
             ir == jp + jm + 1
             ip == ((t * ir) \div tq) % (4 * ir)
         IN IF za > 0 THEN (2 * ir * (ir - 1)) + ip ELSE (NPix(n) - (2 * ir * (ir + 1))) + ip

(* ---- nested scheme: the bits of the coordinates inside one of the 12 faces are interleaved ---- *)
RECURSIVE Even(_)
Even(q) == IF q = 0 THEN 0 ELSE (q % 2) + (2 * Even(q \div 4))
Face(n, p) == [f |-> p \div (n * n), x |-> Even(p % (n * n)), y |-> Even((p % (n * n)) \div 2)]
RECURSIVE Spread(_)
Spread(x) == IF x = 0 THEN 0 ELSE (x % 2) + (4 * Spread(x \div 2))
Nested(n, c) == (c.f * n * n) + Spread(c.x) + (2 * Spread(c.y))
FaceRow == <<2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4>>
FaceCol == <<1, 3, 5, 7, 0, 2, 4, 6, 1, 3, 5, 7>>
RingOf(n, c) ==
    LET jr == (((FaceRow[c.f + 1] * n) - c.x) - c.y) - 1
        nr == IF jr < n THEN jr ELSE IF jr > 3 * n THEN (4 * n) - jr ELSE n
        before == IF jr < n THEN 2 * nr * (nr - 1) ELSE IF jr > 3 * n THEN NPix(n) - (2 * (nr + 1) * nr) ELSE Cap(n) + ((jr - n) * 4 * n)
        shift == IF jr < n \/ jr > 3 * n THEN 0 ELSE (jr - n) % 2
        jp == ((((FaceCol[c.f + 1] * nr) + c.x) - c.y) + 1 + shift) \div 2
        k == IF jp > 4 * n THEN jp - (4 * n) ELSE IF jp < 1 THEN jp + (4 * n) ELSE jp
    IN (before + k) - 1
Cells(n) == [f : 0..11, x : 0..(n - 1), y : 0..(n - 1)]
CellOf(n, p) == CHOOSE c \in Cells(n) : RingOf(n, c) = p

(* ---- neighbours: steps of one pixel along the axes of the face, which may lead to another face ---- *)
NOFACE == 12
Across == <<<<8, 9, 10, 11, 12, 12, 12, 12, 10, 11, 8, 9>>,
            <<5, 6, 7, 4, 8, 9, 10, 11, 9, 10, 11, 8>>,
            <<12, 12, 12, 12, 5, 6, 7, 4, 12, 12, 12, 12>>,
            <<4, 5, 6, 7, 11, 8, 9, 10, 11, 8, 9, 10>>,
            <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11>>,
            <<1, 2, 3, 0, 0, 1, 2, 3, 5, 6, 7, 4>>,
            <<12, 12, 12, 12, 7, 4, 5, 6, 12, 12, 12, 12>>,
            <<3, 0, 1, 2, 3, 0, 1, 2, 4, 5, 6, 7>>,
            <<2, 3, 0, 1, 12, 12, 12, 12, 0, 1, 2, 3>>>>
Turned == <<<<0, 0, 3>>, <<0, 0, 6>>, <<0, 0, 0>>, <<0, 0, 5>>, <<0, 0, 0>>, <<5, 0, 0>>, <<0, 0, 0>>, <<6, 0, 0>>, <<3, 0, 0>>>>
Off(x, n) == IF x < 0 THEN -1 ELSE IF x >= n THEN 1 ELSE 0
Step(n, c, dx, dy) ==
    LET x == c.x + dx
        y == c.y + dy
        k == 5 + Off(x, n) + (3 * Off(y, n))
        f == Across[k][c.f + 1]
        b == Turned[k][(c.f \div 4) + 1]
        x1 == x % n
        y1 == y % n
        x2 == IF b % 2 = 1 THEN (n - 1) - x1 ELSE x1
        y2 == IF (b \div 2) % 2 = 1 THEN (n - 1) - y1 ELSE y1
    IN IF b \div 4 = 1 THEN [f |-> f, x |-> y2, y |-> x2] ELSE [f |-> f, x |-> x2, y |-> y2]
EdgeSteps == <<<<-1, 0>>, <<0, 1>>, <<1, 0>>, <<0, -1>>>>
CornerSteps == <<<<-1, 1>>, <<1, 1>>, <<1, -1>>, <<-1, -1>>>>
Around(n, p, steps) ==     \* neighbours in the ring scheme
    LET c == CellOf(n, p)
        all == [k \in 1..4 |-> Step(n, c, steps[k][1], steps[k][2])]
        some == SelectSeq(all, LAMBDA q : q.f # NOFACE)
    IN [k \in DOMAIN some |-> RingOf(n, some[k])]
(* laplacian of a map times 6 h^2: weights of the neighbours which share an edge or a corner *)
Laplacian(n, m, we, wc) ==
    [i \in 1..NPix(n) |-> LET e == Around(n, i - 1, EdgeSteps)
                              c == Around(n, i - 1, CornerSteps)
                          IN (we * SumSeq([k \in DOMAIN e |-> m[e[k] + 1]])) + (wc * SumSeq([k \in DOMAIN c |-> m[c[k] + 1]])) - (20 * m[i])]

(* ---- gaussian convolution: the mean is kept and the dipole damped by exp(-sigma^2) ---- *)
(* map: c + a z in each pixel, z in units of 1 / (3 n^2); sigma^2 in units of 1 / 32; result in units of 1 / 1024 *)
Smoothed(n, c, a, s2) == [i \in 1..NPix(n) |-> (c * 1024) + ((a * Center(n, i - 1).z * Exp32(s2)) \div 32)]

(* ---- black body: x = h nu / (k T) in units of 1 / 32; in units of 1 / 8192 ---- *)
Planck(x) == LET e == Exp32(x) IN (e * 8192) \div (32768 - e)
(* logarithmic derivative with respect to the temperature: x exp(-x) / (1 - exp(-x))^2 *)
Slope(x) == LET e == Exp32(x) IN (((x * e) \div 32) * 8192) \div (((32768 - e) * (32768 - e)) \div 32768)
=============================================================================
