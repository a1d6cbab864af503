-------------------------------- MODULE Frames --------------------------------
(* Celestial frames: equatorial (E), galactic (G) and horizontal (H). Vectors are  *)
(* equatorial integer vectors; a site is <<lat, lst>>, two indices of ROTS: the    *)
(* latitude and the local sidereal time. Horizontal coordinates are multiplied by  *)
(* 25 (north, east, zenith).                                                       *)
EXTENDS Common

ROTS == << <<5, 0>>, <<0, 5>>, <<-5, 0>>, <<0, -5>>,
           <<4, 3>>, <<3, 4>>, <<-3, 4>>, <<-4, 3>>, <<-4, -3>>, <<-3, -4>>, <<3, -4>>, <<4, -3>> >>
Latitudes == {i \in DOMAIN ROTS : ROTS[i][1] >= 0}
(* the angle after a quarter of turn *)
Quarter(i) == CHOOSE j \in DOMAIN ROTS : ROTS[j] = <<-ROTS[i][2], ROTS[i][1]>>
RECURSIVE Quarters(_, _)
Quarters(i, n) == IF n = 0 THEN i ELSE Quarters(Quarter(i), n - 1)

DotP(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Times(k, v) == [i \in DOMAIN v |-> k * v[i]]
Plus(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
Over(v, k) == [i \in DOMAIN v |-> v[i] \div k]

(* directions of the site: zenith (25), east (5), north = zenith x east (25) *)
Zenith(site) == LET la == ROTS[site[1]]
                    st == ROTS[site[2]]
                IN <<la[1] * st[1], la[1] * st[2], 5 * la[2]>>
East(site) == LET st == ROTS[site[2]] IN <<-st[2], st[1], 0>>
North(site) == Over(Cross(Zenith(site), East(site)), 5)

(* 25 times the horizontal coordinates *)
Horizontal(v, site) == <<DotP(v, North(site)), 5 * DotP(v, East(site)), DotP(v, Zenith(site))>>
(* 625 times the equatorial coordinates, from 25 times the horizontal ones *)
Equatorial(h, site) == Plus(Plus(Times(h[1], North(site)), Times(5 * h[2], East(site))), Times(h[3], Zenith(site)))

(* the samples of a sampling are separated by quarters of sidereal day *)
SiteAt(site, k) == <<site[1], Quarters(site[2], k % 4)>>

RECURSIVE SumV(_)
SumV(vs) == IF vs = <<>> THEN <<0, 0, 0>> ELSE Plus(Head(vs), SumV(Tail(vs)))
Unmasked(vs, mask) == LET ks == SelectSeq(Iota(Len(vs)), LAMBDA k : ~mask[k + 1]) IN SeqTake(vs, ks)
=============================================================================
