------------------------------ MODULE MadMap ------------------------------
(* Observations in the MADMAP1 format. Three kinds of files:                        *)
(* - a time-ordered file: a header and, block after block and detector after         *)
(*   detector, the records of the samples: signal, then (value, pixel) pairs;        *)
(* - one file per block and detector for the inverse noise correlations, whose      *)
(*   numeric suffixes give the order: first and last sample, correlations;           *)
(* - a mask of the map, from which the observed pixels are numbered.                *)
EXTENDS Common
NaN == 1000001
PInf == 1000002
MInf == 1000003
Num(f, i) == f.filters[i]
(* the filters, by increasing suffix *)
RECURSIVE Sorted(_)
Sorted(fs) == IF fs = <<>> THEN <<>>
              ELSE LET i == CHOOSE i \in DOMAIN fs : \A j \in DOMAIN fs : fs[i].suffix <= fs[j].suffix
                   IN <<fs[i]>> \o Sorted(SubSeq(fs, 1, i - 1) \o SubSeq(fs, i + 1, Len(fs)))
Masked(v, missing) ==
    CASE missing = "none" -> v # 0
      [] missing = "nan" -> v = NaN
      [] missing = "inf" -> v \in {PInf, MInf}
      [] missing = "zero" -> v = 0
      [] missing = "seven" -> v = 7
Observed(f) == Cardinality({i \in DOMAIN f.mask : ~Masked(f.mask[i], f.missing)})
(* outcome of the opening of the files *)
Opening(f) ==
    CASE f.filters = <<>> -> "exc:FileNotFoundError"
      [] \E i \in DOMAIN f.filters : Len(f.filters[i].data) # Len(f.filters[1].data) -> "exc:ValueError"
      [] Len(f.filters) % f.nd # 0 -> "exc:ValueError"
      [] f.mask = <<>> -> "exc:OSError"
      [] f.npix # Observed(f) -> "exc:ValueError"
      [] OTHER -> "ok"
NBlocks(f) == Len(f.filters) \div f.nd
Filter(f, b, d) == Sorted(f.filters)[(b - 1) * f.nd + d]
Ns(f) == LET s == Sorted(f.filters)
         IN [b \in 1..NBlocks(f) |-> s[(b - 1) * f.nd + 1].last - s[(b - 1) * f.nd + 1].first + 1]
NSamples(f) == SumSeq(Ns(f))
Rec(f) == 1 + 2 * f.npps
Start(f, b) == SumSeq(SubSeq(Ns(f), 1, b - 1))
Reading(f) == IF Len(f.words) = Rec(f) * f.nd * NSamples(f) THEN "ok" ELSE "exc:ValueError"
(* position of the words of a sample, from 0 *)
Base(f, b, d, t) == LET ns == Ns(f) IN (Start(f, b) * f.nd + (d - 1) * ns[b] + (t - 1)) * Rec(f)
BlockOf(f, s) == CHOOSE b \in 1..NBlocks(f) : Start(f, b) < s /\ s <= Start(f, b) + Ns(f)[b]
At(f, d, s) == LET b == BlockOf(f, s) IN Base(f, b, d, s - Start(f, b))
Signal(f) == [d \in 1..f.nd |-> [s \in 1..NSamples(f) |-> f.words[At(f, d, s) + 1]]]
(* sequence of the <<pixel, value>> of a sample *)
Elements(f, d, s) == LET p == At(f, d, s) IN [i \in 1..f.npps |-> <<f.words[p + 2 * i + 1], f.words[p + 2 * i]>>]
Project(f, m) == [d \in 1..f.nd |-> [s \in 1..NSamples(f) |->
                    LET e == Elements(f, d, s) IN SumSeq([i \in 1..f.npps |-> e[i][2] * m[e[i][1] + 1]])]]
Back(f, y) == LET N == NSamples(f)
                  e == [d \in 1..f.nd |-> [s \in 1..N |-> Elements(f, d, s)]] IN
              [p \in 1..f.npix |-> SumSeq([d \in 1..f.nd |-> SumSeq([s \in 1..N |->
                   SumSeq([i \in 1..f.npps |-> IF e[d][s][i][1] = p - 1 THEN e[d][s][i][2] * y[d][s] ELSE 0])])])]
(* the samples of different blocks or detectors are not correlated *)
Invntt(f, y) == LET ns == Ns(f) IN
    [d \in 1..f.nd |-> Flatten([b \in 1..NBlocks(f) |->
        LET c == Filter(f, b, d).data
            o == Start(f, b) IN
        [t \in 1..ns[b] |-> SumSeq([u \in 1..ns[b] |->
            IF Abs(t - u) < Len(c) THEN c[Abs(t - u) + 1] * y[d][o + u] ELSE 0])]])]
=============================================================================
