---------------------------- MODULE Acquisition ----------------------------
(* The acquisition: detectors x samplings over a grid of processes, the blocks   *)
(* of samplings and the selections.  A process of rank r is described by         *)
(*   dets, samps, pixs   the global numbers of its detectors, samplings, pixels   *)
(*   blocks              the groups of local samplings, as pairs start, stop      *)
(*   group               the ranks of the processes that share its observation    *)
(*   inst                the ranks of the processes that share its instrument     *)
(* Detector d at sampling t sees the pixel P with a coefficient Coef; its noise   *)
(* is Noise and the inverse noise variance Weight.                               *)
EXTENDS Common
P(d, t, np) == (3 * d + 2 * t) % np
Coef(d, t) == 1 + ((d + 2 * t) % 5)
Noise(d, t) == 100 * d + t
Weight(d, t) == 1 + ((2 * d + t) % 3)

(* ---- the grid of processes ---- *)
(* <<number of processes for the samplings, for the instrument>>, <<>> if refused *)
Grid(n, ni, ns) ==
    LET g == IF ni = NONE /\ ns = NONE THEN <<n, 1>>
             ELSE IF ni = NONE THEN (IF ns < 1 \/ ns > n THEN <<>> ELSE <<ns, n \div ns>>)
             ELSE IF ni < 1 \/ ni > n THEN <<>>
             ELSE IF ns = NONE THEN <<n \div ni, ni>> ELSE <<ns, ni>>
    IN IF g = <<>> \/ g[1] * g[2] # n THEN <<>> ELSE g
(* ranks are row-major in the grid: the instrument varies fastest *)
SampRank(r, g) == r \div g[2]
DetRank(r, g) == r % g[2]
Part(n, m, k) ==        \* k-th of the m groups of 0..n-1, the first ones being larger
    LET q == n \div m
        rem == n % m
        lo == k * q + Min2(k, rem)
        len == q + (IF k < rem THEN 1 ELSE 0)
    IN [i \in 1..len |-> lo + i - 1]

Whole(n) == << <<0, n>> >>
Create(dets, nt, np, n, g, blocks) ==
    [i \in 1..n |->
        LET s == Part(nt, g[1], SampRank(i - 1, g)) IN
        [dets |-> SeqTake(dets, Part(Len(dets), g[2], DetRank(i - 1, g))), samps |-> s, pixs |-> Iota(np),
         blocks |-> IF blocks = <<>> THEN Whole(Len(s)) ELSE blocks,
         group |-> 0..(n - 1), inst |-> {j \in 0..(n - 1) : SampRank(j, g) = SampRank(i - 1, g)},
         row |-> SampRank(i - 1, g), col |-> DetRank(i - 1, g)]]

(* ---- selections: dsel etc. are << >> (everything) or << 0-based positions >> ---- *)
(* A selection of detectors breaks the distribution of the detectors: afterwards  *)
(* a process shares its observation with those which have the same column.       *)
Pick(seq, sel) == IF sel = <<>> THEN seq ELSE SeqTake(seq, sel[1])
MaxLen(blocks, n) ==
    LET S == {Max2(0, Min2(blocks[i][2], n) - Min2(blocks[i][1], n)) : i \in DOMAIN blocks}
    IN CHOOSE m \in S \cup {1} : \A x \in S \cup {1} : m >= x
Reblock(blocks, nold, nnew) ==
    IF nnew <= nold THEN blocks
    ELSE LET m == CeilDiv(nnew, MaxLen(blocks, nold)) IN
         [k \in 1..m |-> LET p == Part(nnew, m, k - 1) IN <<p[1], p[1] + Len(p)>>]
Selection(a, dsel, tsel, psel) ==     \* of the acquisition of a process; sels by process
    [a EXCEPT !.dets = Pick(@, dsel), !.samps = Pick(@, tsel), !.pixs = Pick(@, psel),
              !.blocks = IF tsel = <<>> THEN @ ELSE Reblock(@, Len(a.samps), Len(Pick(a.samps, tsel)))]
SelectAll(w, sels) ==
    LET ds == sels[1].d # <<>>
        ts == sels[1].t # <<>>
    IN [i \in DOMAIN w |->
          [Selection(w[i], sels[i].d, sels[i].t, sels[i].p) EXCEPT
             !.inst = IF ds THEN {i - 1} ELSE @,
             !.group = IF ds /\ ts THEN {i - 1}
                       ELSE IF ds THEN {j \in @ : w[j + 1].col = w[i].col}
                       ELSE IF ts THEN {j \in @ : w[j + 1].row = w[i].row}
                       ELSE @]]

(* ---- the operator, block after block ---- *)
Positions(b, n) == [k \in 1..Max2(0, Min2(b[2], n) - Min2(b[1], n)) |-> Min2(b[1], n) + k]
InBlocks(a) ==         \* the local samplings (1-based), in the order of the blocks
    Flatten([i \in DOMAIN a.blocks |-> Positions(a.blocks[i], Len(a.samps))])
PixPos(a, p) == IF \E k \in DOMAIN a.pixs : a.pixs[k] = p
                THEN CHOOSE k \in DOMAIN a.pixs : a.pixs[k] = p ELSE 0
(* observation: one row per detector, one column per sampling; x local scene *)
Direct(a, x, np) ==
    LET js == InBlocks(a) IN
    [i \in DOMAIN a.dets |-> [j \in DOMAIN js |->
        LET d == a.dets[i]
            t == a.samps[js[j]]
            k == PixPos(a, P(d, t, np))
        IN IF k = 0 THEN 0 ELSE Coef(d, t) * x[k]]]
Local(a, y, np) ==     \* contribution of a process to the transpose
    [k \in DOMAIN a.pixs |-> SumSeq([i \in DOMAIN a.dets |-> SumSeq([j \in DOMAIN a.samps |->
        LET d == a.dets[i]
            t == a.samps[j]
        IN IF PixPos(a, P(d, t, np)) = k THEN Coef(d, t) * y[i][j] ELSE 0])])]
Transpose(w, i, ys, np) ==
    LET g == w[i].group
        locs == [j \in DOMAIN w |-> IF (j - 1) \in g THEN Local(w[j], ys[j], np) ELSE <<>>]
    IN [k \in DOMAIN w[i].pixs |->
          SumSeq([j \in DOMAIN w |-> IF (j - 1) \in g THEN locs[j][k] ELSE 0])]
NoiseOf(a) ==
    [i \in DOMAIN a.dets |-> [j \in DOMAIN a.samps |-> Noise(a.dets[i], a.samps[j])]]
Weighted(a, y) ==
    [i \in DOMAIN a.dets |-> [j \in DOMAIN a.samps |-> Weight(a.dets[i], a.samps[j]) * y[i][j]]]
AddTo(x, y) == [i \in DOMAIN x |-> [j \in DOMAIN x[i] |-> x[i][j] + y[i][j]]]
SplitBlocks(n, m) == [k \in 1..m |->
    LET q == n \div m
        rem == n % m
        lo == (k - 1) * q + Min2(k - 1, rem)
    IN <<lo, lo + q + (IF k <= rem THEN 1 ELSE 0)>>]
=============================================================================
