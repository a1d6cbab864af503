----------------------------- MODULE FitsFiles -----------------------------
(* Saving arrays with companions in FITS files and reading them back, by one or   *)
(* several processes.  An array is a record of Datatypes.tla with two more fields: *)
(* dt (data type) and crpix (the reference pixel of the header along each FITS     *)
(* axis, or <<>>).  The values are codes standing for exact floating point values. *)
(* A file is <<>> (absent) or <<f>>; f.org is "?" when the array is not a Map.     *)
EXTENDS Datatypes

FileOf(r) ==
    [shape |-> r.shape, v |-> r.v, dt |-> r.dt, unit |-> r.unit, hdr |-> r.hdr,
     org |-> IF r.cls = "Map" THEN r.org ELSE "?",
     cov |-> IF r.cls = "Map" THEN r.cov ELSE <<>>, err |-> IF r.cls = "Map" THEN r.err ELSE <<>>,
     mask |-> IF r.cls = "Tod" THEN r.mask ELSE <<>>, du |-> r.du, crpix |-> r.crpix]
(* g: the arguments given besides the file name; "" or <<>> when not given *)
Signed(dt) == dt \in {"i1", "i2", "i4", "i8"}
LoadedType(dt, g) == IF g.dt # "" THEN g.dt ELSE IF Signed(dt) THEN "f8" ELSE dt
LoadFile(f, cls, g) ==
    [cls |-> cls, shape |-> f.shape, v |-> f.v, dt |-> LoadedType(f.dt, g),
     unit |-> IF g.newunit THEN g.unit ELSE f.unit, hdr |-> f.hdr,
     org |-> IF cls # "Map" THEN "" ELSE IF g.org # "" THEN g.org ELSE f.org,
     cov |-> IF cls # "Map" THEN <<>> ELSE IF g.cov # <<>> THEN g.cov ELSE f.cov,
     err |-> IF cls # "Map" THEN <<>> ELSE IF g.err # <<>> THEN g.err ELSE f.err,
     mask |-> IF cls # "Tod" THEN <<>> ELSE IF g.mask # <<>> THEN g.mask ELSE f.mask,
     du |-> f.du, crpix |-> f.crpix]
(* rows a..a+n-1 along the first dimension, which is the last FITS axis *)
Rows(r, pos) ==
    LET m == Size(Tail(r.shape)) IN
    Picked(r, Flatten([i \in DOMAIN pos |-> [j \in 1..m |-> pos[i] * m + j - 1]]),
           <<Len(pos)>> \o Tail(r.shape))
Part(r, size, rank) ==
    LET pos == SplitPos(r.shape[1], size, rank)
        n == Len(r.shape)
    IN [Rows(r, pos) EXCEPT !.crpix = IF n \notin DOMAIN @ THEN @
            ELSE [@ EXCEPT ![n] = @ - SplitStart(r.shape[1], size, rank)]]
LoadPart(f, cls, g, size, rank) == Part(LoadFile(f, cls, g), size, rank)
(* the array whose parts are held by several processes *)
CatComp(cs) == IF cs[1] = <<>> THEN <<>> ELSE << Flatten([i \in DOMAIN cs |-> cs[i][1]]) >>
Gather(parts) ==
    LET f == [i \in DOMAIN parts |-> FileOf(parts[i])] IN
    [f[1] EXCEPT !.v = Flatten([i \in DOMAIN f |-> f[i].v]),
        !.shape = <<SumSeq([i \in DOMAIN f |-> f[i].shape[1]])>> \o Tail(@),
        !.cov = CatComp([i \in DOMAIN f |-> f[i].cov]), !.err = CatComp([i \in DOMAIN f |-> f[i].err]),
        !.mask = CatComp([i \in DOMAIN f |-> f[i].mask])]
WellSplit(parts) ==
    LET n == SumSeq([i \in DOMAIN parts |-> parts[i].shape[1]]) IN
    \A i \in DOMAIN parts : /\ parts[i].shape[1] = SplitLen(n, Len(parts), i - 1)
                            /\ Tail(parts[i].shape) = Tail(parts[1].shape)
NoArgs == [dt |-> "", newunit |-> FALSE, unit |-> 0, org |-> "", cov |-> <<>>, err |-> <<>>, mask |-> <<>>]
=============================================================================
