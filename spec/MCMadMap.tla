------------------------------ MODULE MCMadMap ------------------------------
(* Every small observation; a map is projected, weighted and projected back.       *)
EXTENDS MadMap, Json
CONSTANTS ND, NB, NS, NPPS, NPIX
VARIABLES f, data, kind
vars == <<f, data, kind>>
Out(m) == PrintT("@@" \o ToJson(m))
(* all numbers of detectors, of samples in each block and of pixels per sample; two fillings *)
Lengths == UNION {[1..b -> 1..NS] : b \in 1..NB}
Fill(nd, ns, npps, shift) == LET rec == 1 + 2 * npps IN
    [i \in 1..(rec * nd * SumSeq(ns)) |->
        LET k == (i - 1) % rec
            r == (i - 1) \div rec IN
        IF k = 0 THEN i + 100
        ELSE IF k % 2 = 1 THEN ((2 * r) + k + shift) % 5
        ELSE (r + (k \div 2) + shift) % NPIX]
Filters(nd, ns, nc) == Flatten([b \in 1..Len(ns) |-> [d \in 1..nd |->
    [suffix |-> 2 * ((b - 1) * nd + d) + 5, first |-> 10 * b, last |-> 10 * b + ns[b] - 1,
     data |-> [i \in 1..nc |-> IF i = 1 THEN 3 + ((b - 1) * nd) + d ELSE 0 - d]]]])
Reverse(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Files == UNION {{[nd |-> nd, npps |-> p, npix |-> NPIX, missing |-> "none", mask |-> Append(Const(NPIX, 0), 1),
           words |-> Fill(nd, ns, p, s), filters |-> Reverse(Filters(nd, ns, nc))] :
             ns \in Lengths, p \in 1..NPPS, s \in 0..2, nc \in 1..2} : nd \in 1..ND}
Possible == {g \in Files : \A b \in DOMAIN Ns(g) : Ns(g)[b] >= Len(g.filters[1].data)}
Init == f \in Possible /\ data = <<>> /\ kind = "none"
Say(op, x, y) == Out([op |-> op, f |-> f, x |-> x, y |-> y])
ReadSignal == kind = "none" /\ data' = Signal(f) /\ kind' = "tod" /\ Say("tod", <<>>, data') /\ UNCHANGED f
Maps == {[p \in 1..NPIX |-> 3 * p - 4], [p \in 1..NPIX |-> IF p = 1 THEN 1 ELSE 0]}
Forth == kind = "none" /\ \E m \in Maps : data' = Project(f, m) /\ kind' = "tod" /\ Say("project", m, data') /\ UNCHANGED f
Weight == kind = "tod" /\ data' = Invntt(f, data) /\ kind' = "weighted" /\ Say("invntt", data, data') /\ UNCHANGED f
BackProject == kind \in {"tod", "weighted"} /\ data' = Back(f, data) /\ kind' = "map" /\ Say("back", data, data') /\ UNCHANGED f
Next == ReadSignal \/ Forth \/ Weight \/ BackProject
Spec == Init /\ [][Next]_vars
First == kind = "none"
N == NSamples(f)
Unit(d, s) == [e \in 1..f.nd |-> [u \in 1..N |-> IF e = d /\ u = s THEN 1 ELSE 0]]
UnitMap(p) == [q \in 1..NPIX |-> IF q = p THEN 1 ELSE 0]
InvAdjoint == First => \A p \in 1..NPIX, d \in 1..f.nd, s \in 1..N :
    Project(f, UnitMap(p))[d][s] = Back(f, Unit(d, s))[p]
(* each word of the file belongs to one sample *)
InvLayout == First => /\ Reading(f) = "ok"
                      /\ {At(f, d, s) : d \in 1..f.nd, s \in 1..N} = {Rec(f) * i : i \in 0..(f.nd * N - 1)}
InvSymmetric == First => \A d, e \in 1..f.nd, s, u \in 1..N :
    Invntt(f, Unit(d, s))[e][u] = Invntt(f, Unit(e, u))[d][s]
(* neither the other detectors nor the other blocks *)
InvBlocks == First => \A d, e \in 1..f.nd, s, u \in 1..N :
    (d # e \/ BlockOf(f, s) # BlockOf(f, u)) => Invntt(f, Unit(d, s))[e][u] = 0
=============================================================================
