------------------------------- MODULE Common -------------------------------
(* Operators shared by the specifications. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NONE == 99999        \* Python's None as a slice bound
NAN == -999999001    \* a floating point NaN
NONINT == -999999002 \* recorded value that is not an integer

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
CeilDiv(a, b) == -((-a) \div b)      \* b > 0

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

RECURSIVE ProdSeq(_)
ProdSeq(s) == IF s = <<>> THEN 1 ELSE Head(s) * ProdSeq(Tail(s))

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))

Range(s) == {s[i] : i \in DOMAIN s}
IsInjSeq(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j
SeqTake(s, ps) == [k \in 1..Len(ps) |-> s[ps[k] + 1]]   \* ps: 0-based positions
Iota(n) == [k \in 1..n |-> k - 1]
Const(n, v) == [k \in 1..n |-> v]

(* increasing sequence of a set of integers lying in lo..hi *)
RECURSIVE SortedFrom(_, _, _)
SortedFrom(S, lo, hi) ==
    IF lo > hi THEN <<>>
    ELSE IF lo \in S THEN <<lo>> \o SortedFrom(S, lo + 1, hi)
    ELSE SortedFrom(S, lo + 1, hi)

SelectIdx(n, Test(_)) == SelectSeq(Iota(n), Test)

(* ---- Python's slice.indices(n) and the positions it selects ---- *)
SliceStart(a, s, n) ==
    IF a = NONE THEN (IF s > 0 THEN 0 ELSE n - 1)
    ELSE IF a < 0 THEN Max2(a + n, IF s > 0 THEN 0 ELSE -1)
    ELSE Min2(a, IF s > 0 THEN n ELSE n - 1)
SliceStop(b, s, n) ==
    IF b = NONE THEN (IF s > 0 THEN n ELSE -1)
    ELSE IF b < 0 THEN Max2(b + n, IF s > 0 THEN 0 ELSE -1)
    ELSE Min2(b, IF s > 0 THEN n ELSE n - 1)
SlicePos(a, b, s, n) ==
    LET lo == SliceStart(a, s, n)
        hi == SliceStop(b, s, n)
        m == IF s > 0 THEN Max2(0, CeilDiv(hi - lo, s))
             ELSE Max2(0, CeilDiv(lo - hi, -s))
    IN [k \in 1..m |-> lo + (k - 1) * s]

(* ---- partition of n items in m contiguous groups ---- *)
(* a family of lengths is a balanced partition of n items *)
Balanced(lens, n, m) ==
    /\ Len(lens) = m
    /\ SumSeq(lens) = n
    /\ \A i, j \in DOMAIN lens : Abs(lens[i] - lens[j]) <= 1

(* the partition documented by pyoperators.utils.split *)
SplitLen(n, m, r) == n \div m + (IF n % m > r THEN 1 ELSE 0)
SplitStart(n, m, r) == (n \div m) * r + Min2(r, n % m)
SplitPos(n, m, r) == [k \in 1..SplitLen(n, m, r) |-> SplitStart(n, m, r) + k - 1]
=============================================================================
