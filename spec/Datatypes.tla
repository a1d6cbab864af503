----------------------------- MODULE Datatypes -----------------------------
(* Arrays with companions: maps with their coverage and error, time-ordered data *)
(* with their mask, FITS arrays with their header.                              *)
(* An array is [cls, shape, v: values, cov, err, mask: companions, hdr: mark of   *)
(* the header, unit: exponents, org: origin, du: has derived units].            *)
(* A companion is <<>> (absent) or <<values>>, the values being in C order.      *)
EXTENDS Common

Size(shape) == ProdSeq(shape)
(* ---- selections: key[d] = [kind: "int" | "seq" | "new", p: 0-based positions] ---- *)
RECURSIVE KeyIdx(_, _)
KeyIdx(shape, key) ==
    IF key = <<>> THEN <<0>>
    ELSE LET k == Head(key) IN
         IF k.kind = "new" THEN KeyIdx(shape, Tail(key))
         ELSE LET rest == KeyIdx(Tail(shape), Tail(key))
                  size == Size(Tail(shape))
              IN Flatten([i \in DOMAIN k.p |-> [j \in DOMAIN rest |-> k.p[i] * size + rest[j]]])
RECURSIVE KeyShape(_)
KeyShape(key) ==
    IF key = <<>> THEN <<>>
    ELSE LET k == Head(key) IN
         (IF k.kind = "int" THEN <<>> ELSE IF k.kind = "new" THEN <<1>> ELSE <<Len(k.p)>>)
         \o KeyShape(Tail(key))
(* ---- reshape in C and Fortran orders ---- *)
RECURSIVE Unravel(_, _)         \* C order: position -> indices
Unravel(p, shape) ==
    IF shape = <<>> THEN <<>>
    ELSE LET n == Size(Tail(shape)) IN <<p \div n>> \o Unravel(p % n, Tail(shape))
RECURSIVE FPos(_, _)            \* Fortran position of indices
FPos(idx, shape) ==
    IF shape = <<>> THEN 0 ELSE Head(idx) + Head(shape) * FPos(Tail(idx), Tail(shape))
(* C positions of the elements in Fortran order *)
FOrder(shape) ==
    LET n == Size(shape)
        f == [p \in 0..(n - 1) |-> FPos(Unravel(p, shape), shape)]
    IN [k \in 1..n |-> CHOOSE p \in 0..(n - 1) : f[p] = k - 1]
(* C positions, in the source, of the elements of the reshaped array in C order *)
ReshapeIdx(shape, dims, order) ==
    IF order = "C" THEN Iota(Size(shape))
    ELSE LET src == FOrder(shape) IN
         [k \in 1..Size(dims) |-> src[FPos(Unravel(k - 1, dims), dims) + 1]]
(* one of the dimensions may be -1 *)
FullDims(dims, n) ==
    LET known == ProdSeq(SelectSeq(dims, LAMBDA d : d # -1)) IN
    [i \in DOMAIN dims |-> IF dims[i] = -1 THEN n \div known ELSE dims[i]]

(* ---- everything follows ---- *)
Comp(c, idx) == IF c = <<>> THEN <<>> ELSE <<SeqTake(c[1], idx)>>
Picked(r, idx, shape) ==
    [r EXCEPT !.shape = shape, !.v = SeqTake(@, idx), !.cov = Comp(@, idx), !.err = Comp(@, idx),
              !.mask = Comp(@, idx)]
Select(r, key) == Picked(r, KeyIdx(r.shape, key), KeyShape(key))
Reshape(r, dims, order) ==
    LET d == FullDims(dims, Size(r.shape)) IN Picked(r, ReshapeIdx(r.shape, d, order), d)
Aligned(r) ==
    \A c \in {r.cov, r.err, r.mask} : c # <<>> => Len(c) = 1 /\ Len(c[1]) = Size(r.shape)
MapV(r, F(_)) == [r EXCEPT !.v = [i \in DOMAIN @ |-> F(@[i])]]

(* ---- conversion to another class ---- *)
ToClass(r, cls) ==
    IF r.cls = cls THEN r
    ELSE [r EXCEPT !.cls = cls, !.cov = <<>>, !.err = <<>>, !.mask = <<>>,
                   !.org = IF cls = "Map" THEN "lower" ELSE ""]

(* ---- reductions that ignore the masked samples ---- *)
Masked(r, p) == r.mask # <<>> /\ r.mask[1][p + 1] = 1
(* groups of 0-based positions, one per element of the result *)
Groups(shape, axis) ==
    IF axis = NONE THEN << Iota(Size(shape)) >>
    ELSE LET before == Size(SubSeq(shape, 1, axis))
             n == shape[axis + 1]
             after == Size(SubSeq(shape, axis + 2, Len(shape)))
         IN [g \in 1..(before * after) |->
               [k \in 1..n |-> ((g - 1) \div after) * (n * after) + (k - 1) * after + ((g - 1) % after)]]
ReducedShape(shape, axis, keep) ==
    IF axis = NONE THEN (IF keep THEN [i \in DOMAIN shape |-> 1] ELSE <<>>)
    ELSE IF keep THEN [shape EXCEPT ![axis + 1] = 1]
    ELSE SubSeq(shape, 1, axis) \o SubSeq(shape, axis + 2, Len(shape))
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : y >= x
(* value of a reduction times 60 (the groups have at most 6 elements) *)
Reduced(r, g, f) ==
    LET good == SelectSeq(g, LAMBDA p : ~Masked(r, p))
        vals == [i \in DOMAIN good |-> r.v[good[i] + 1]]
        n == Len(vals)
    IN CASE f = "sum" -> 60 * SumSeq(vals)
         [] f = "mean" -> (60 * SumSeq(vals)) \div n
         [] f = "max" -> 60 * SetMax(Range(vals))
         [] f = "min" -> 60 * SetMin(Range(vals))
         [] f = "ptp" -> 60 * (SetMax(Range(vals)) - SetMin(Range(vals)))
         [] OTHER -> 0
AllMasked(r, g) == \A i \in DOMAIN g : Masked(r, g[i])
=============================================================================
