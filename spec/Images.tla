------------------------------- MODULE Images -------------------------------
(* Images of distances, apertures, gaussian and Airy beams, axisymmetric profiles and   *)
(* two-dimensional power spectral densities.                                       *)
EXTENDS Geometry
RECURSIVE Bisect(_, _, _)
Bisect(x, lo, hi) == IF hi - lo <= 1 THEN lo
                     ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN Bisect(x, m, hi) ELSE Bisect(x, lo, m)
Root(x) == Bisect(x, 0, 46341)
(* position along the axis k (in the order of the shape) of the cell j of an array *)
Stride(shape, k) == ProdSeq([i \in 1..(Len(shape) - k) |-> shape[k + i]])
Position(shape, j, k) == ((j - 1) \div Stride(shape, k)) % shape[k]
Middle(shape) == [k \in DOMAIN shape |-> 2 * (shape[(Len(shape) + 1) - k] - 1)]   \* in quarters of pixels
(* Squared distance to the centre c (quarters of pixels, x first), for pixels of size s (halves), in units of 1 / 64 *)
D2(shape, c, s, j) ==
    SumSeq([k \in DOMAIN shape |-> LET a == (Len(shape) + 1) - k
                                   IN (((4 * Position(shape, j, k)) - c[a]) * s[a]) ^ 2])
Distances2(shape, c, s) == [j \in 1..ProdSeq(shape) |-> D2(shape, c, s, j)]
(* mask of a disk, whose diameter is given in halves *)
Disk(shape, c, s, d) == [j \in 1..ProdSeq(shape) |-> IF D2(shape, c, s, j) <= 4 * d * d THEN 1 ELSE 0]

(* ---- axisymmetric profiles: bins in quarters, pixel size in halves ---- *)
Dist(nr, nc, c, j) == D2(<<nr, nc>>, c, <<2, 2>>, j) \div 4        \* squared, in units of 1 / 16 pixel
RECURSIVE BinFrom(_, _, _)
BinFrom(k, b2, d) == IF (k + 1) * (k + 1) * b2 > d THEN k ELSE BinFrom(k + 1, b2, d)
BinOf(b, s, d) == BinFrom(0, 4 * b * b, d * s * s) + 1
DefaultBins(nr, nc, c, b, s) ==
    (Max2(Max2((4 * nr) - c[2], c[2]), Max2((4 * nc) - c[1], c[1])) * s) \div (2 * b)
Ring(v, nr, nc, c, b, s, k) == SelectSeq([j \in 1..(nr * nc) |-> j], LAMBDA j : v[j] # NAN /\ BinOf(b, s, Dist(nr, nc, c, j)) = k)
Over(ring, F(_)) == SumSeq([i \in DOMAIN ring |-> F(ring[i])])
(* number of pixels, sum of their values, sum of their distances (in 1 / 1024 pixel) *)
Profile(v, nr, nc, c, b, s, n) ==
    [k \in 1..n |-> LET r == TLCEval(Ring(v, nr, nc, c, b, s, k))
                    IN [n |-> Len(r), sum |-> Over(r, LAMBDA j : v[j]),
                        radius |-> Over(r, LAMBDA j : Root(Dist(nr, nc, c, j) * 65536))]]
RECURSIVE Cumulated(_, _)
Cumulated(p, k) == IF k = 0 THEN 0 ELSE Cumulated(p, k - 1) + p[k].sum

(* ---- gaussian: centre and standard deviations in halves; in units of 1 / 32768 ---- *)
(* exponentials of -1/32, -2/32, -4/32, ... *)
Powers == <<31760, 30783, 28918, 25520, 19875, 12055, 4435, 600, 11>>
RECURSIVE ExpFrom(_, _)
ExpFrom(k, i) == IF k = 0 THEN 32768
                 ELSE LET r == ExpFrom(k \div 2, i + 1) IN IF k % 2 = 1 THEN (r * Powers[i]) \div 32768 ELSE r
Exp32(k) == IF k >= 512 THEN 0 ELSE ExpFrom(k, 1)
Bell(delta, sigma) == (Exp32((delta * delta * 16) \div (sigma * sigma)) * (26145 \div sigma)) \div 32768
RECURSIVE GaussFrom(_, _, _, _, _)
GaussFrom(shape, c, s, j, k) ==
    IF k > Len(shape) THEN 32768
    ELSE LET a == (Len(shape) + 1) - k
         IN (GaussFrom(shape, c, s, j, k + 1) * Bell((2 * Position(shape, j, k)) - c[a], s[a])) \div 32768
Gauss(shape, c, s) == [j \in 1..ProdSeq(shape) |-> GaussFrom(shape, c, s, j, 1)]

(* ---- Airy disk: 2 J1(x) / x = sum of (-t)^m / (m! (m + 1)!) with t = (x / 2)^2; in units of 1 / 2048 ---- *)
RECURSIVE Series(_, _, _)
Series(t, m, term) == IF term = 0 \/ m > 24 THEN term ELSE term + Series(t, m + 1, -((term * t) \div (1024 * (m + 1) * (m + 2))))
(* squared half-argument in units of 1 / 1024: first zero at r0, or half of the maximum at fwhm / 2 *)
Argument(d2, r2, zero) == IF zero THEN (d2 * 3759) \div r2 ELSE (d2 * 2675) \div r2
Amplitude(t) == Series(t, 0, 2048)
Airy(shape, c, s, r, zero) ==
    [j \in 1..ProdSeq(shape) |-> LET a == Amplitude(Argument(D2(shape, c, s, j), r * r, zero)) IN (a * a) \div 2048]

(* ---- phase mask ---- *)
Quadrant(nr, nc, j, phase) == LET i == (j - 1) \div nc
                                  k == (j - 1) % nc
                              IN IF (i < nr \div 2) = (k >= nc \div 2) THEN phase ELSE <<1, 0>>

(* ---- power spectra: dimensions dividing 24; in units of 1 / 64 ---- *)
Angle(u, i, n) == (24 \div n) * ((u * i) % n)
Turns(nr, nc, u, w, j) == Angle(u, (j - 1) \div nc, nr) + Angle(w, (j - 1) % nc, nc)
(* image: pairs of real and imaginary parts *)
Real(v, nr, nc, u, w) == SumSeq([j \in 1..(nr * nc) |-> LET t == Turns(nr, nc, u, w, j)
                                                        IN (v[j][1] * Cos15(t)) + (v[j][2] * Cos15((t + 18) % 24))]) \div 64
Imag(v, nr, nc, u, w) == SumSeq([j \in 1..(nr * nc) |-> LET t == Turns(nr, nc, u, w, j)
                                                        IN (v[j][2] * Cos15(t)) - (v[j][1] * Cos15((t + 18) % 24))]) \div 64
Square64(x) == (x * x) \div 64
(* frequencies increase along the axes, the null frequency is in the middle: cell j *)
Freq(i, n) == ((i - (n \div 2)) + n) % n
Spectrum(v, nr, nc) ==
    [j \in 1..(nr * nc) |-> LET u == Freq((j - 1) \div nc, nr)
                                w == Freq((j - 1) % nc, nc)
                                a == Real(v, nr, nc, u, w)
                                b == Imag(v, nr, nc, u, w)
                            IN [p |-> Square64(a) + Square64(b), tol |-> 8 + ((Abs(a) + Abs(b)) \div 8)]]
=============================================================================
