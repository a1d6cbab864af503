------------------------------ MODULE MCSparse ------------------------------
(* Every matrix of small size, its transposes, restrictions, co-restrictions    *)
(* and scalings.  Each transition is printed and replayed on the code.          *)
EXTENDS Sparse, Json
CONSTANTS Kinds, P, Q, NR, NC, NMAX, VMAX, DEPTH, GEN   \* GEN: "block" | "rot2d" | "rot3d"
VARIABLES m, depth
vars == <<m, depth>>

(* blocks: value times a fixed block with no symmetry *)
Base(p, q, k) ==
    IF GEN = "rot2d" THEN (IF k = "fsr" THEN <<<<3, -4>>, <<4, 3>>>> ELSE <<<<3, 4>>, <<-4, 3>>>>)
    ELSE IF GEN = "rot3d"
    THEN (IF k = "fsr" THEN <<<<5, 0, 0>>, <<0, 2, -3>>, <<0, 3, 2>>>>
          ELSE <<<<5, 0, 0>>, <<0, 2, 3>>, <<0, -3, 2>>>>)
    ELSE [r \in 1..p |-> [c \in 1..q |-> 1 + (r - 1) * q + 10 * (c - 1)]]
Block(k, w) == [r \in 1..P |-> [c \in 1..Q |-> w * Base(P, Q, k)[r][c]]]
EntriesOf(k) == {[i |-> -1, v |-> Block(k, 1)]} \cup
    {[i |-> i, v |-> Block(k, w)] : i \in 0..((IF k = "fsr" THEN NC ELSE NR) - 1), w \in 0..VMAX}
Matrices(k) ==
    {[k |-> k, p |-> P, q |-> Q, nr |-> NR, nc |-> NC, ent |-> e] :
     e \in [1..(IF k = "fsr" THEN NR ELSE NC) -> [1..NMAX -> EntriesOf(k)]]}

Out(r) == PrintT("@@" \o ToJson(r))
Init == \E k \in Kinds : m \in Matrices(k) /\ depth = 0
    /\ Out([op |-> "create", pre |-> m, d |-> Dense(m), g |-> Gram(m),
            ker |-> IF k = "fsr" THEN InKernel(m) ELSE <<>>])
Step(op, arg, n) ==
    /\ depth < DEPTH /\ depth' = depth + 1 /\ m' = n
    /\ (depth > 0 \/ Out([op |-> op, arg |-> arg, pre |-> m, post |-> n, d |-> Dense(n)]))
Transpose == depth < DEPTH /\ Step("transpose", <<>>, Transposed(m))
Scale == depth < DEPTH /\ \E c \in {-2, 0} : Step("scale", <<c>>, Scaled(m, c))
RestrictCols == m.k = "fsr" /\ \E mask \in [1..m.nc -> {0, 1}] :
    (\E i \in 1..m.nc : mask[i] = 1) /\ Step("restrict", mask, Restricted(m, mask))
RestrictRows == m.k = "fsr" /\ \E mask \in [1..m.nr -> {0, 1}] :
    (\E i \in 1..m.nr : mask[i] = 1) /\ Step("corestrict", mask, Corestricted(m, mask))
Next == Transpose \/ Scale \/ RestrictCols \/ RestrictRows
Spec == Init /\ [][Next]_vars

Dot(x, y) == SumSeq([i \in DOMAIN x |-> x[i] * y[i]])
Basis(n, i) == [j \in 1..n |-> IF i = j THEN 1 ELSE 0]
InvWellFormed == WellFormedMatrix(m)
InvTranspose == Transposed(Transposed(m)) = m /\ Dense(Transposed(m)) = DenseT(m)
InvAdjoint == \A i \in 1..Cols(m), j \in 1..Rows(m) :
    Dot(MatVec(m, Basis(Cols(m), i)), Basis(Rows(m), j))
    = Dot(Basis(Cols(m), i), MatVec(Transposed(m), Basis(Rows(m), j)))
InvProduct == \A i \in 1..Cols(m) :
    MatVec(m, Basis(Cols(m), i)) = [r \in 1..Rows(m) |-> Dense(m)[r][i]]
(* a component of the kernel is a zero (block) column *)
InvKernel == (m.k = "fsr" /\ m.nc > 0) => \A j \in 1..m.nc :
    (InKernel(m)[j] = 1) = (\A r \in 1..Rows(m), c \in 1..m.q : Dense(m)[r][(j - 1) * m.q + c] = 0)
(* a restriction is the matrix without some of its columns, a co-restriction the
   one without some of its rows *)
ColsOf(mm) == {[r \in 1..Rows(mm) |-> Dense(mm)[r][c]] : c \in 1..Cols(mm)}
PropRestrict == [][(m'.k = m.k /\ m'.nr = m.nr /\ m'.nc < m.nc) => ColsOf(m') \subseteq ColsOf(m)]_vars
PropCorestrict == [][(m'.k = m.k /\ m'.nc = m.nc /\ m'.nr < m.nr) => Range(Dense(m')) \subseteq Range(Dense(m))]_vars
=============================================================================
