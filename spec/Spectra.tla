------------------------------ MODULE Spectra ------------------------------
(* Black bodies with a power-law emissivity, distortions of the plane, rotations of the    *)
(* instrument plane, and samplings defined by three angles.                         *)
EXTENDS Healpix
(* ---- black body: x = h nu / (k T) in units of 1 / 32 ---- *)
Occupation(x) == LET e == Exp32(x) IN (e * 32768) \div (32768 - e)
RECURSIVE Times(_, _, _, _)
Times(r, a, b, p) == IF p = 0 THEN r ELSE Times((r * a) \div b, a, b, p - 1)
(* flux at the frequency of number k over that at k0, for the temperature T / m; in units of 1 / 4096 *)
Flux(k, k0, m, beta) == Times((Occupation(k * m) * 4096) \div Occupation(k0 * m), k, k0, 3 + beta)
(* ---- rotation by a position angle whose cosine and sine are c / 5 and s / 5; in units of 1 / 5 arc second ---- *)
Directions == {<<5, 0>>, <<0, 5>>, <<-5, 0>>, <<0, -5>>, <<3, 4>>, <<4, 3>>, <<-3, 4>>, <<3, -4>>, <<-4, -3>>}
East(d, x, y) == (x * d[1]) + (y * d[2])
North(d, x, y) == (y * d[1]) - (x * d[2])
(* ---- affine distortion (a, b, c, d, e, f): (a x + b y + e, c x + d y + f) ---- *)
Affine(t, p) == <<(t[1] * p[1]) + (t[2] * p[2]) + t[5], (t[3] * p[1]) + (t[4] * p[2]) + t[6]>>
Within(p, n) == p[1] > 0 /\ p[2] > 0 /\ p[1] < n /\ p[2] < n
=============================================================================
