------------------------------- MODULE TimeLines -------------------------------
(* Operators acting on arrays of samples: truncated exponential convolutions,      *)
(* rolls, power laws, affine blocks, and their compositions, sums and blocks.      *)
(* An array is [shape, data], in row-major order; the data are integers multiplied *)
(* by a power of two, which is large enough for the divisions to be exact.         *)
(* An operator is a tree:                                                          *)
(*   conv(ks, t)       weights 1/2^k of the previous output, for each row (0: none) *)
(*   roll(ns, axes, t) shifts along axes                                           *)
(*   power(es, s)      multiplication by s 2^e, element by element                 *)
(*   affine(v, c)      x |-> v x + c                                               *)
(*   chain(ops), sum(ops), cut(axis, sizes, ops), stack(axis, ops), fan(axis, ops), *)
(*   join(axis, ops)   composition (the first one is applied first), addition,     *)
(*                     block diagonal over the chunks or the slices of an axis,    *)
(*                     block column and block row over the slices of a new axis    *)
EXTENDS Common

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

Axis(a, d) == IF d < 0 THEN Len(a.shape) + d + 1 ELSE d + 1       \* from 1
Outer(a, d) == ProdSeq(SubSeq(a.shape, 1, d - 1))
Inner(a, d) == ProdSeq(SubSeq(a.shape, d + 1, Len(a.shape)))
At(a, d, o, i, r) == a.data[(o * a.shape[d] + i) * Inner(a, d) + r + 1]

(* n elements along the axis d, the i-th one being at the position F(i) *)
Along(a, d, n, F(_)) ==
    LET in == Inner(a, d)
    IN [shape |-> [k \in DOMAIN a.shape |-> IF k = d THEN n ELSE a.shape[k]],
        data |-> [p \in 1..(Outer(a, d) * n * in) |->
                    At(a, d, (p - 1) \div (n * in), F(((p - 1) \div in) % n), (p - 1) % in)]]
Chunk(a, d, lo, n) == Along(a, d, n, LAMBDA i : lo + i)
Drop(a, d) == [a EXCEPT !.shape = SubSeq(@, 1, d - 1) \o SubSeq(@, d + 1, Len(@))]
Insert(a, d) == [a EXCEPT !.shape = SubSeq(@, 1, d - 1) \o <<1>> \o SubSeq(@, d, Len(@))]
RECURSIVE Cat(_, _)
Cat(d, as) ==
    IF Len(as) = 1 THEN as[1]
    ELSE LET a == as[1]
             b == Cat(d, Tail(as))
             n == a.shape[d] + b.shape[d]
             in == Inner(a, d)
         IN [shape |-> [k \in DOMAIN a.shape |-> IF k = d THEN n ELSE a.shape[k]],
             data |-> [p \in 1..(Outer(a, d) * n * in) |->
                        LET i == ((p - 1) \div in) % n
                            o == (p - 1) \div (n * in)
                            r == (p - 1) % in
                        IN IF i < a.shape[d] THEN At(a, d, o, i, r) ELSE At(b, d, o, i - a.shape[d], r)]]

(* truncated exponential *)
RECURSIVE Filter(_, _)
Filter(x, k) ==
    IF Len(x) = 1 \/ k = 0 THEN x
    ELSE LET n == Len(x)
             y == Filter(SubSeq(x, 1, n - 1), k)
         IN Append(y, (y[n - 1] + (Pow2(k) - 1) * x[n]) \div Pow2(k))
(* its transpose: z_j = y_j + w z_(j+1), multiplied by 1 - w except for the first sample *)
RECURSIVE Backwards(_, _)
Backwards(y, k) ==
    IF Len(y) = 1 THEN y
    ELSE LET z == Backwards(Tail(y), k) IN <<y[1] + z[1] \div Pow2(k)>> \o z
FilterT(y, k) == LET z == Backwards(y, k)
                 IN IF k = 0 THEN y ELSE [j \in DOMAIN z |-> IF j = 1 THEN z[j] ELSE z[j] - z[j] \div Pow2(k)]
Rows(a, F(_, _)) ==
    LET n == a.shape[Len(a.shape)]
    IN IF n = 0 THEN a
       ELSE [a EXCEPT !.data = Flatten([r \in 1..(Len(@) \div n) |-> F(SubSeq(a.data, (r - 1) * n + 1, r * n), r)])]
KOf(ks, r) == ks[Min2(r, Len(ks))]
Conv(a, ks, t) == Rows(a, LAMBDA x, r : IF t THEN FilterT(x, KOf(ks, r)) ELSE Filter(x, KOf(ks, r)))

Roll1(a, n, d) == LET m == a.shape[d] IN IF m = 0 THEN a ELSE Along(a, d, m, LAMBDA i : (i - n) % m)
RECURSIVE Roll(_, _, _)
Roll(a, ns, axes) == IF ns = <<>> THEN a ELSE Roll(Roll1(a, Head(ns), Axis(a, Head(axes))), Tail(ns), Tail(axes))
Neg(ns) == [i \in DOMAIN ns |-> -ns[i]]

Scale2(x, e) == IF e >= 0 THEN x * Pow2(e) ELSE x \div Pow2(-e)
PowerLaw(a, es, s) == [a EXCEPT !.data = [i \in DOMAIN @ |-> Scale2(s * @[i], KOf(es, i))]]
AddA(a, b) == [a EXCEPT !.data = [i \in DOMAIN @ |-> @[i] + b.data[i]]]
RECURSIVE SumA(_)
SumA(as) == IF Len(as) = 1 THEN as[1] ELSE AddA(as[1], SumA(Tail(as)))

(* z: number of bits by which the data have been multiplied *)
RECURSIVE Apply(_, _, _)
Apply(op, a, z) ==
    CASE op.k = "conv" -> Conv(a, op.ks, op.t)
      [] op.k = "roll" -> Roll(a, IF op.t THEN Neg(op.ns) ELSE op.ns, op.axes)
      [] op.k = "power" -> PowerLaw(a, op.es, op.s)
      [] op.k = "affine" -> [a EXCEPT !.data = [i \in DOMAIN @ |-> op.v * @[i] + op.c * Pow2(z)]]
      [] op.k = "chain" -> IF op.ops = <<>> THEN a ELSE Apply([op EXCEPT !.ops = Tail(@)], Apply(Head(op.ops), a, z), z)
      [] op.k = "sum" -> SumA([i \in DOMAIN op.ops |-> Apply(op.ops[i], a, z)])
      [] op.k = "cut" ->
           LET d == Axis(a, op.axis)
               lo == [i \in DOMAIN op.sizes |-> SumSeq(SubSeq(op.sizes, 1, i - 1))]
           IN Cat(d, [i \in DOMAIN op.ops |-> Apply(op.ops[i], Chunk(a, d, lo[i], op.sizes[i]), z)])
      [] op.k = "stack" ->
           LET d == Axis(a, op.axis)
           IN Cat(d, [i \in DOMAIN op.ops |-> Insert(Apply(op.ops[i], Drop(Chunk(a, d, i - 1, 1), d), z), d)])
      [] op.k = "fan" ->
           LET d == IF op.axis < 0 THEN Len(a.shape) + op.axis + 2 ELSE op.axis + 1
           IN Cat(d, [i \in DOMAIN op.ops |-> Insert(Apply(op.ops[i], a, z), d)])
      [] op.k = "join" ->
           LET d == Axis(a, op.axis)
           IN SumA([i \in DOMAIN op.ops |-> Apply(op.ops[i], Drop(Chunk(a, d, i - 1, 1), d), z)])

RECURSIVE Transpose(_)
Transpose(op) ==
    CASE op.k \in {"conv", "roll"} -> [op EXCEPT !.t = ~@]
      [] op.k = "chain" -> [op EXCEPT !.ops = [i \in DOMAIN @ |-> Transpose(@[Len(@) + 1 - i])]]
      [] op.k \in {"sum", "cut", "stack"} -> [op EXCEPT !.ops = [i \in DOMAIN @ |-> Transpose(@[i])]]
      [] op.k = "fan" -> [op EXCEPT !.k = "join", !.ops = [i \in DOMAIN @ |-> Transpose(@[i])]]
      [] op.k = "join" -> [op EXCEPT !.k = "fan", !.ops = [i \in DOMAIN @ |-> Transpose(@[i])]]
      [] OTHER -> op
Up(a, z) == [a EXCEPT !.data = [i \in DOMAIN @ |-> @[i] * Pow2(z)]]
=============================================================================
