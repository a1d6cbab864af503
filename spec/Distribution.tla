---------------------------- MODULE Distribution ----------------------------
(* The distribution over processes of observations, of detectors (by groups of    *)
(* the size of a team of threads) and of the headers of arrays.                   *)
EXTENDS Common

(* ---- observations x groups of detectors, over a regular grid of blocks ---- *)
NGroups(nd, nth) == CeilDiv(nd, nth)
Blocks(x, y, nx, ny) == CeilDiv(nx, x) * CeilDiv(ny, y)
Feasible(b, nx, ny, size) ==
    \E x \in 1..b : b % x = 0 /\ Blocks(x, b \div x, nx, ny) <= size
RECURSIVE LeastBlock(_, _, _, _)
LeastBlock(b, nx, ny, size) == IF Feasible(b, nx, ny, size) THEN b ELSE LeastBlock(b + 1, nx, ny, size)
(* the least work of the busiest process of a regular grid *)
Busiest(nx, ny, size) == LeastBlock(1, nx, ny, size)

(* part <<observations, detectors>> (0-based) of a process *)
Cut(n, lo, hi) == [k \in 1..Max2(0, Min2(hi, n) - Min2(lo, n)) |-> Min2(lo, n) + k - 1]
PartOf(r, x, y, nx, nd, nth) ==
    LET nyb == Max2(1, CeilDiv(NGroups(nd, nth), y))
        nxb == CeilDiv(nx, x)
        ix == r \div nyb
        iy == r % nyb
    IN IF ix >= nxb THEN <<<<>>, <<>>>>
       ELSE <<Cut(nx, ix * x, (ix + 1) * x), Cut(nd, iy * y * nth, (iy + 1) * y * nth)>>

(* parts[r]: <<observations, detectors>> of a process, as sequences of numbers *)
OnceEach(parts, obs, dets) ==
    \A o \in Range(obs) : \A d \in Range(dets) :
        Cardinality({r \in DOMAIN parts : o \in Range(parts[r][1]) /\ d \in Range(parts[r][2])}) = 1
Nothing(parts, obs, dets) ==       \* nothing else, nothing twice
    \A r \in DOMAIN parts :
        /\ Range(parts[r][1]) \subseteq Range(obs) /\ IsInjSeq(parts[r][1])
        /\ Range(parts[r][2]) \subseteq Range(dets) /\ IsInjSeq(parts[r][2])
Work(part, nth) == Len(part[1]) * NGroups(Len(part[2]), nth)
Even(parts, obs, dets, nth, size) ==
    \A r \in DOMAIN parts :
        Work(parts[r], nth) <= Busiest(Len(obs), NGroups(Len(dets), nth), size)

(* ---- headers: naxis = <<NAXIS1, ..>>, crpix = <<CRPIX1, ..>> or << >> ---- *)
PartStart(n, m, k) == k * (n \div m) + Min2(k, n % m)
PartLen(n, m, k) == (n \div m) + (IF k < n % m THEN 1 ELSE 0)
(* rank r of m processes; the last axis of the FITS convention is distributed *)
ScatterHdr(hd, m, r) ==
    LET a == Len(hd.naxis)
        n == hd.naxis[a]
    IN [hd EXCEPT !.naxis[a] = PartLen(n, m, r),
                  !.crpix = IF a <= Len(@) /\ @[a] # NONE
                            THEN [@ EXCEPT ![a] = @ - PartStart(n, m, r) * hd.scale] ELSE @]
GatherHdr(hs, r) ==           \* made by process r (0-based)
    LET hd == hs[r + 1]
        a == Len(hd.naxis)
        n == SumSeq([i \in DOMAIN hs |-> hs[i].naxis[a]])
    IN [hd EXCEPT !.naxis[a] = n,
                  !.crpix = IF a <= Len(@) /\ @[a] # NONE
                            THEN [@ EXCEPT ![a] = @ + PartStart(n, Len(hs), r) * hd.scale] ELSE @]
(* the world coordinate of pixel i (1-based) along the last axis, in steps *)
Coord(hd, i) == LET a == Len(hd.naxis) IN i * hd.scale - hd.crpix[a]
=============================================================================
