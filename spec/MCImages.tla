------------------------------ MODULE MCImages ------------------------------
(* Every small image, and its profiles and spectrum; every small disk.               *)
EXTENDS Images, Json
CONSTANTS NR, NC, VALUES, CENTERS, BINS, DIAMETERS
VARIABLES what, x
vars == <<what, x>>
Out(m) == PrintT("@@" \o ToJson(m))
Shapes == {<<r, c>> : r \in 1..NR, c \in 1..NC}
Images(s) == [1..(s[1] * s[2]) -> VALUES \cup {NAN}]
Centers == {<<a - 2, b - 2>> : a, b \in CENTERS}
Init == \/ what = "image" /\ \E s \in Shapes : x \in [s : {s}, v : Images(s), c : Centers, b : BINS, q : {1, 2, 4}]
        \/ what = "disk" /\ x \in [s : Shapes, c : Centers, d : DIAMETERS, q : {<<2, 2>>, <<1, 4>>}]
        \/ what = "map" /\ \E s \in Shapes : x \in [s : {s}, v : [1..(s[1] * s[2]) -> VALUES \X {0, 1}]]
NB == 3
Seen(y) == Profile(y.v, y.s[1], y.s[2], y.c, y.b, y.q, NB)
MakeProfile == what = "image" /\ what' = "profile" /\ x' = Seen(x)
               /\ Out([op |-> "profile", a |-> x, nb |-> NB, p |-> x', cum |-> [k \in 1..NB |-> Cumulated(x', k)]])
MakeDisk == what = "disk" /\ what' = "mask" /\ x' = Disk(x.s, x.c, x.q, x.d)
            /\ Out([op |-> "disk", a |-> x, mask |-> x', d2 |-> Distances2(x.s, x.c, x.q)])
Transform == what = "map" /\ what' = "spectrum" /\ x' = Spectrum(x.v, x.s[1], x.s[2])
             /\ Out([op |-> "psd", a |-> x, p |-> x'])
Next == MakeProfile \/ MakeDisk \/ Transform
Spec == Init /\ [][Next]_vars
Valid(y) == SelectSeq([j \in 1..(y.s[1] * y.s[2]) |-> j], LAMBDA j : y.v[j] # NAN)
(* Nothing is lost: with enough bins, the profile shares out the valid pixels; the integrated profile ends with their sum *)
InvShare == what = "image" =>
    LET p == Profile(x.v, x.s[1], x.s[2], x.c, x.b, x.q, 24)
        g == Valid(x)
    IN /\ SumSeq([k \in 1..24 |-> p[k].n]) = Len(g)
       /\ Cumulated(p, 24) = Over(g, LAMBDA j : x.v[j])
       /\ \A k \in 1..24 : /\ 1024 * x.b * (k - 1) * p[k].n <= 2 * x.q * p[k].radius + (8 * p[k].n)
                           /\ p[k].n > 0 => 2 * x.q * p[k].radius < 1024 * x.b * k * p[k].n
(* Disks grow with their diameter, and a pixel is in the disk when its centre is *)
InvDisk == what = "disk" =>
    LET m == Disk(x.s, x.c, x.q, x.d)
        n == Disk(x.s, x.c, x.q, x.d + 1)
    IN \A j \in DOMAIN m : m[j] <= n[j] /\ (D2(x.s, x.c, x.q, j) = 0 => m[j] = 1)
(* Parseval: the mean square of the image is the integral of its spectrum *)
InvParseval == what = "map" =>
    LET f == Spectrum(x.v, x.s[1], x.s[2])
        n == x.s[1] * x.s[2]
    IN Near(SumSeq([j \in 1..n |-> f[j].p]), 64 * n * SumSeq([j \in 1..n |-> (x.v[j][1] ^ 2) + (x.v[j][2] ^ 2)]),
            SumSeq([j \in 1..n |-> f[j].tol]))
(* Definition of the parameters of the Airy disk *)
ASSUME Amplitude(0) = 2048
ASSUME Abs(Amplitude(Argument(64, 64, TRUE))) <= 8
ASSUME Near((Amplitude(Argument(64, 256, FALSE)) ^ 2) \div 2048, 1024, 8)
(* The gaussian is normalised and has half its maximum at the half width *)
ASSUME Near(SumSeq(Gauss(<<17>>, <<16>>, <<2>>)), 32768, 40)
ASSUME Near(SumSeq(Gauss(<<33>>, <<32>>, <<4>>)), 32768, 80)
=============================================================================
