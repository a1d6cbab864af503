--------------------------- MODULE MCDistribution ---------------------------
(* The search of a regular grid of blocks, for all the numbers of observations,   *)
(* detectors, threads and processes; headers scattered and gathered.             *)
EXTENDS Distribution, Json
CONSTANTS NX, ND, NTH, SIZE, NHDR
VARIABLES pc, in, b, x, hs
vars == <<pc, in, b, x, hs>>
Out(m) == PrintT("@@" \o ToJson(m))
H0(n, d, c) == [naxis |-> [i \in 1..d |-> IF i = d THEN n ELSE 2], crpix |-> [i \in 1..d |-> c], scale |-> 1]
Init ==
    \/ /\ pc = "search" /\ hs = <<>>
       /\ in \in [nx : 0..NX, nd : 0..ND, nth : 1..NTH, size : 2..SIZE]
       /\ b = Max2(1, CeilDiv(in.nx * NGroups(in.nd, in.nth), in.size)) /\ x = 1
    \/ /\ pc = "global" /\ b = 0 /\ x = 0
       /\ in \in [n : 1..NHDR, d : 1..3, c : 0..2, size : 1..SIZE]
       /\ hs = <<H0(in.n, in.d, in.c)>>
G == NGroups(in.nd, in.nth)
Fits == b % x = 0 /\ Blocks(x, b \div x, in.nx, G) <= in.size
Skip == /\ pc = "search" /\ ~Fits /\ x < b
        /\ x' = x + 1 /\ UNCHANGED <<pc, in, b, hs>>
Enlarge == /\ pc = "search" /\ ~Fits /\ x = b
           /\ x' = 1 /\ b' = b + 1 /\ UNCHANGED <<pc, in, hs>>
Found == /\ pc = "search" /\ Fits
         /\ pc' = "done" /\ UNCHANGED <<in, b, x, hs>>
         /\ Out([op |-> "distribute", in |-> in, parts |-> [r \in 1..in.size |->
                    PartOf(r - 1, x, b \div x, in.nx, in.nd, in.nth)]])
Scatter == /\ pc = "global" /\ pc' = "local"
           /\ hs' = [r \in 1..in.size |-> ScatterHdr(hs[1], in.size, r - 1)]
           /\ Out([op |-> "scatter", in |-> in, pre |-> hs[1], post |-> hs'])
           /\ UNCHANGED <<in, b, x>>
Gather == /\ pc = "local" /\ pc' = "gathered"
          /\ hs' = [r \in DOMAIN hs |-> GatherHdr(hs, r - 1)]
          /\ Out([op |-> "gather", in |-> in, pre |-> hs, post |-> hs'])
          /\ UNCHANGED <<in, b, x>>
Next == Skip \/ Enlarge \/ Found \/ Scatter \/ Gather
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Parts == [r \in 1..in.size |-> PartOf(r - 1, x, b \div x, in.nx, in.nd, in.nth)]
InvOnce == pc = "done" => OnceEach(Parts, Iota(in.nx), Iota(in.nd))
InvNothing == pc = "done" => Nothing(Parts, Iota(in.nx), Iota(in.nd))
InvEven == pc = "done" => Even(Parts, Iota(in.nx), Iota(in.nd), in.nth, in.size)
InvGathered == pc = "gathered" => \A r \in DOMAIN hs : hs[r] = H0(in.n, in.d, in.c)
InvLocal ==         \* local pixels have the coordinates of the global ones
    pc = "local" =>
    LET g == H0(in.n, in.d, in.c) IN
    /\ SumSeq([r \in DOMAIN hs |-> hs[r].naxis[in.d]]) = in.n
    /\ \A r \in DOMAIN hs : \A i \in 1..hs[r].naxis[in.d] :
           Coord(hs[r], i) = Coord(g, i + SumSeq([k \in 1..(r - 1) |-> hs[k].naxis[in.d]]))
Ends == <>(pc \in {"done", "gathered"})
=============================================================================
