------------------------------- MODULE Noise -------------------------------
(* Gaussian noise of an instrument, given by its power spectrum, and the inverse   *)
(* of its time-time covariance.                                                    *)
(* Spectra are rational numbers <<n, d>>; real numbers are in units of 1 / ONE.     *)
EXTENDS Common, TLC
ONE == 4096
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
Red(q) == LET g == GCD(q[1], q[2]) IN <<q[1] \div g, q[2] \div g>>
Mul(p, q) == Red(<<p[1] * q[1], p[2] * q[2]>>)
Div(p, q) == Red(<<p[1] * q[2], p[2] * q[1]>>)
Plus(p, q) == Red(<<(p[1] * q[2]) + (p[2] * q[1]), p[2] * q[2]>>)
Whole(n) == <<n, 1>>
LE(p, q) == p[1] * q[2] <= q[1] * p[2]
RECURSIVE Pw(_, _)
Pw(q, s) == IF s = 0 THEN Whole(1) ELSE IF s < 0 THEN Pw(<<q[2], q[1]>>, -s) ELSE Mul(q, Pw(q, s - 1))
Fixed(q) == IF q[1] < 400000 THEN (q[1] * ONE) \div q[2] ELSE (q[1] \div q[2]) * ONE
(* square root of a number in units of 1 / ONE *)
RECURSIVE Bisect(_, _, _)
Bisect(x, lo, hi) == IF hi - lo <= 1 THEN lo
                     ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN Bisect(x, m, hi) ELSE Bisect(x, lo, m)
Sqrt(x) == IF x < 524288 THEN Bisect(x * 4096, 0, 46340)
           ELSE IF x < 2097152 THEN Bisect(x * 1024, 0, 46340) * 2 ELSE Bisect(x, 0, 46340) * 64

(* ---- one- and two-sided spectra of an even number of samples ---- *)
Fold(p) == LET n == (Len(p) \div 2) + 1 IN [i \in 1..n |-> IF i = 1 \/ i = n THEN p[i] ELSE p[i] + p[Len(p) + 2 - i]]
(* (the values which are shared by two frequencies are even) *)
Unfold(p) == LET n == Len(p) IN
    [i \in 1..(2 * (n - 1)) |-> IF i = 1 \/ i = n THEN p[i] ELSE IF i < n THEN p[i] \div 2 ELSE p[2 * n - i] \div 2]
Symmetric(p) == \A i \in 2..Len(p) : p[i] = p[Len(p) + 2 - i]

(* ---- variance of the noise at the frequency k fs / n, relative to white noise of variance 1 ---- *)
(* "knee": sigma2 (1 + (fknee / f)^slope);                                           *)
(* "power": one-sided spectrum known at the multiples of the bandwidth bw, following    *)
(*  level (f / (m bw))^s1 below m bw and level (f / (m bw))^s2 above; interpolated and     *)
(*  extrapolated on logarithmic scales.                                              *)
Variance(a, k, n, fs) ==
    IF a.kind = "knee" THEN
       LET x == Div(Mul(a.fknee, Whole(n)), Mul(fs, Whole(k)))
       IN IF a.fknee[1] = 0 THEN a.sigma2 ELSE Mul(a.sigma2, Plus(Whole(1), Pw(x, a.slope)))
    ELSE
       LET x == Div(Mul(fs, Whole(k)), Mul(Mul(a.bw, Whole(a.m)), Whole(n)))
           one == Mul(a.level, Pw(x, IF LE(x, Whole(1)) THEN a.s1 ELSE a.s2))
       IN Div(Mul(one, fs), Whole(2))
(* cos (2 pi i / n), in units of 1 / FINE *)
FINE == 16384
Table(n) == CASE n = 1 -> <<16384>>
              [] n = 2 -> <<16384, -16384>>
              [] n = 3 -> <<16384, -8192, -8192>>
              [] n = 4 -> <<16384, 0, -16384, 0>>
              [] n = 5 -> <<16384, 5063, -13255, -13255, 5063>>
              [] n = 6 -> <<16384, 8192, -8192, -16384, -8192, 8192>>
              [] n = 8 -> <<16384, 11585, 0, -11585, -16384, -11585, 0, 11585>>
              [] n = 16 -> <<16384, 15137, 11585, 6270, 0, -6270, -11585, -15137, -16384, -15137, -11585, -6270, 0, 6270, 11585, 15137>>
Cos(i, n) == Table(n)[(i % n) + 1]
Low(k, n) == Min2(k, n - k)
(* product of a number and of a cosine, without overflow *)
Scaled(x, c) == ((x \div FINE) * c) + (((x % FINE) * c) \div FINE)
(* inverse discrete Fourier transform of a symmetric real sequence S(0), ..., S(n - 1) *)
Kernel(S(_), n) == LET sv == TLCEval([k \in 1..n |-> S(Low(k - 1, n))]) IN
    TLCEval([j \in 1..n |-> SumSeq([k \in 1..n |-> Scaled(sv[k], Cos((j - 1) * (k - 1), n))]) \div n])
(* size of the transforms for the inverse covariance *)
RECURSIVE FFTSize(_, _)
FFTSize(n, p) == IF p >= n THEN p ELSE FFTSize(n, 2 * p)
(* first row of the inverse covariance: the power of the mean is that of the lowest frequency *)
Row(a, n, fs) == LET N == FFTSize(n, 2)
                 IN Kernel(LAMBDA k : Fixed(Div(Whole(1), Variance(a, Max2(k, 1), N, fs))), N)
Weighted(row, ncorr, y) == [t \in DOMAIN y |-> SumSeq([u \in DOMAIN y |->
    IF Abs(t - u) <= ncorr THEN row[Abs(t - u) + 1] * y[u] ELSE 0])]
(* a realisation of the noise is the convolution of white noise by the square root of the spectrum *)
Filter(a, n, fs) == Kernel(LAMBDA k : IF k = 0 THEN 0 ELSE Sqrt(Fixed(Variance(a, k, n, fs))), n)
Drawn(a, fs, z) == LET n == Len(z)
                       h == Filter(a, n, fs)
                   IN [t \in 1..n |-> SumSeq([u \in 1..n |-> (h[((t - u) % n) + 1] * z[u]) \div 64]) \div 64]
Near(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Abs(a[i] - b[i]) <= tol
Of(models, d) == models[Min2(d, Len(models))]
=============================================================================
