------------------------------- MODULE Sparse -------------------------------
(* The sparse storages of pysimulators.sparse: fixed number of entries per row  *)
(* (fsr) or per column (fsc), an entry being a block.  A matrix is a record     *)
(*    [k: "fsr" | "fsc", p, q: block shape, nr, nc: number of blocks,           *)
(*     ent: one sequence of entries per line (row for fsr, column for fsc)]     *)
(* an entry is [i: block index (negative: no entry), v: the p x q block].       *)
(* The rotation storages are blocks of a special form.                         *)
EXTENDS Common, SequencesExt

Rows(m) == m.nr * m.p
Cols(m) == m.nc * m.q
Nlines(m) == IF m.k = "fsr" THEN m.nr ELSE m.nc

WellFormedMatrix(m) ==
    /\ Len(m.ent) = Nlines(m)
    /\ \A a \in DOMAIN m.ent : \A b \in DOMAIN m.ent[a] :
          /\ m.ent[a][b].i < (IF m.k = "fsr" THEN m.nc ELSE m.nr)
          /\ Len(m.ent[a][b].v) = m.p
          /\ \A r \in 1..m.p : Len(m.ent[a][b].v[r]) = m.q

(* element (r, c), 0-based *)
Elem(m, r, c) ==
    LET line == IF m.k = "fsr" THEN r \div m.p ELSE c \div m.q
        other == IF m.k = "fsr" THEN c \div m.q ELSE r \div m.p
    IN FoldLeft(LAMBDA s, e : IF e.i = other THEN s + e.v[(r % m.p) + 1][(c % m.q) + 1] ELSE s,
                0, m.ent[line + 1])

Dense(m) == [r \in 1..Rows(m) |-> [c \in 1..Cols(m) |-> Elem(m, r - 1, c - 1)]]
DenseT(m) == [c \in 1..Cols(m) |-> [r \in 1..Rows(m) |-> Elem(m, r - 1, c - 1)]]

(* product with a vector, from the entries *)
RowDot(m, r, x) ==     \* r 0-based scalar row
    IF m.k = "fsr" THEN
        FoldLeft(LAMBDA s, e :
                   IF e.i < 0 THEN s
                   ELSE s + SumSeq([c \in 1..m.q |->
                                      e.v[(r % m.p) + 1][c] * x[e.i * m.q + c]]),
                 0, m.ent[(r \div m.p) + 1])
    ELSE
        FoldLeft(LAMBDA s, a :
                   FoldLeft(LAMBDA u, e :
                              IF e.i # r \div m.p THEN u
                              ELSE u + SumSeq([c \in 1..m.q |->
                                          e.v[(r % m.p) + 1][c] * x[(a - 1) * m.q + c]]),
                            s, m.ent[a]),
                 0, [a \in 1..m.nc |-> a])

MatVec(m, x) == [r \in 1..Rows(m) |-> RowDot(m, r - 1, x)]
(* product with the columns of an array of n rows (homothety blocks) *)
MatMat(m, x) ==
    LET e == Len(x[1])
        cols == [j \in 1..e |-> MatVec(m, [c \in 1..Cols(m) |-> x[c][j]])]
    IN [r \in 1..Rows(m) |-> [j \in 1..e |-> cols[j][r]]]
AddMat(a, b) == [r \in DOMAIN a |-> [j \in DOMAIN a[r] |-> a[r][j] + b[r][j]]]

TrBlock(v, p, q) == [c \in 1..q |-> [r \in 1..p |-> v[r][c]]]
MapEnt(m, F(_)) == [a \in DOMAIN m.ent |-> [b \in DOMAIN m.ent[a] |-> F(m.ent[a][b])]]
Transposed(m) ==
    [k |-> IF m.k = "fsr" THEN "fsc" ELSE "fsr", p |-> m.q, q |-> m.p,
     nr |-> m.nc, nc |-> m.nr,
     ent |-> MapEnt(m, LAMBDA e : [i |-> e.i, v |-> TrBlock(e.v, m.p, m.q)])]
Scaled(m, c) ==
    [m EXCEPT !.ent = MapEnt(m, LAMBDA e :
        [i |-> e.i, v |-> [r \in 1..m.p |-> [s \in 1..m.q |-> c * e.v[r][s]]]])]

(* ---- subspaces (fsr): mask has one flag per block column / block row ---- *)
CountTrue(mask, n) == Cardinality({i \in 1..n : mask[i] # 0})
Restricted(m, mask) ==
    [m EXCEPT !.nc = CountTrue(mask, m.nc),
              !.ent = MapEnt(m, LAMBDA e :
                  [i |-> IF e.i < 0 \/ mask[e.i + 1] = 0 THEN -1
                         ELSE CountTrue(mask, e.i), v |-> e.v])]
Corestricted(m, mask) ==
    LET keep == SelectIdx(m.nr, LAMBDA i : mask[i + 1] # 0)
    IN [m EXCEPT !.nr = Len(keep), !.ent = SeqTake(m.ent, keep)]

(* the vectors of the canonical (block) basis which are in the kernel; the
   entries must not cancel each other *)
ZeroBlock(m, v) == \A r \in 1..m.p : \A c \in 1..m.q : v[r][c] = 0
InKernel(m) ==
    [j \in 1..m.nc |->
        IF \A a \in DOMAIN m.ent : \A b \in DOMAIN m.ent[a] :
               m.ent[a][b].i # j - 1 \/ ZeroBlock(m, m.ent[a][b].v)
        THEN 1 ELSE 0]

(* coverage: first component of the transpose applied over one *)
FirstOf(m, y) == [j \in 1..m.nc |-> y[(j - 1) * m.q + 1]]
Isqrt(n) == CHOOSE k \in 0..n : k * k <= n /\ (k + 1) * (k + 1) > n
PT1(m, rot2d) ==
    IF rot2d
    THEN [j \in 1..m.nc |->
            FoldLeft(LAMBDA s, line :
                       FoldLeft(LAMBDA u, e : IF e.i # j - 1 THEN u
                                  ELSE u + Isqrt(e.v[1][1] * e.v[1][1] + e.v[2][1] * e.v[2][1]),
                                s, line), 0, m.ent)]
    ELSE FirstOf(m, MatVec(Transposed(m), Const(Rows(m), 1)))
PTx(m, x) == FirstOf(m, MatVec(Transposed(m), x))

Gram(m) ==
    LET D == Dense(m) IN
    [a \in 1..Cols(m) |-> [b \in 1..Cols(m) |->
        SumSeq([r \in 1..Rows(m) |-> D[r][a] * D[r][b]])]]
(* a square matrix repeated over e columns (Kronecker product with the identity) *)
KronId(G, e) ==
    IF e = 1 THEN G ELSE
    [a \in 1..(Len(G) * e) |-> [b \in 1..(Len(G) * e) |->
        IF (a - 1) % e = (b - 1) % e THEN G[((a - 1) \div e) + 1][((b - 1) \div e) + 1] ELSE 0]]
=============================================================================
