--------------------------- MODULE MCAcquisition ---------------------------
(* All the grids of up to PROCS processes, partitions in blocks and chains of     *)
(* DEPTH selections: the processes together see what a single process would see;  *)
(* the transitions are printed and replayed on the code.                         *)
EXTENDS Acquisition, Json
CONSTANTS ND, NT, NP, PROCS, DEPTH
VARIABLES w, depth, n, path
vars == <<w, depth, n, path>>
X == [k \in 1..NP |-> k]
Out(x) == PrintT("@@" \o ToJson(x))
Args(m) == {NONE} \cup 0..(m + 1)
Blocks == {<<>>, << <<0, 1>>, <<1, NT>> >>, << <<0, 2>>, <<2, 2>>, <<2, NT>> >>}
Results(v) ==
    LET ys == [i \in DOMAIN v |-> Direct(v[i], [k \in DOMAIN v[i].pixs |-> 1 + v[i].pixs[k]], NP)] IN
    [i \in DOMAIN v |-> [a |-> v[i], y |-> ys[i], z |-> Transpose(v, i, ys, NP)]]
Init == n = 0 /\ depth = 0 /\ w = <<>> /\ path = <<>>
Start ==
    /\ n = 0 /\ depth' = 0
    /\ \E m \in 1..PROCS : \E ni \in Args(m) : \E ns \in Args(m) : \E b \in Blocks :
         /\ n' = m
         /\ LET g == Grid(m, ni, ns) IN
            IF g = <<>>
            THEN /\ w' = <<>> /\ b = <<>> /\ path' = <<>>
                 /\ Out([op |-> "refuse", n |-> m, ni |-> ni, ns |-> ns])
            ELSE /\ path' = << [n |-> m, ni |-> ni, ns |-> ns, block |-> b] >>
                 /\ w' = Create(Iota(ND), NT, NP, m, g, b)
                 /\ Out([op |-> "create", path |-> path', post |-> Results(w')])
(* the same expression is evaluated by all the processes: here, with one process *)
(* per selection, the sizes may differ                                          *)
Pos(f, len) ==
    CASE f = "all" -> <<>> [] f = "1:" -> <<SlicePos(1, NONE, 1, len)>>
      [] f = "::-1" -> <<SlicePos(NONE, NONE, -1, len)>> [] f = "::2" -> <<SlicePos(NONE, NONE, 2, len)>>
      [] f = "0" -> <<<<0>>>> [] f = "[0, 0]" -> <<<<0, 0>>>> [] OTHER -> <<<<>>>>
Forms == {"all", "1:", "::-1", "0", "[0, 0]"}
Possible(f, len) == f \in {"0", "[0, 0]"} => len > 0
Choose ==
    /\ n > 0 /\ w # <<>> /\ depth < DEPTH
    /\ \E f1 \in Forms : \E f2 \in Forms : \E f3 \in {"all", "::2"} :
         /\ f1 # "all" \/ f2 # "all" \/ f3 # "all"
         /\ \A i \in DOMAIN w : Possible(f1, Len(w[i].dets)) /\ Possible(f2, Len(w[i].samps))
         /\ w' = SelectAll(w, [i \in DOMAIN w |-> [d |-> Pos(f1, Len(w[i].dets)),
                        t |-> Pos(f2, Len(w[i].samps)), p |-> Pos(f3, Len(w[i].pixs))]])
         /\ path' = Append(path, <<f1, f2, f3>>)
         /\ Out([op |-> "select", path |-> path', post |-> Results(w')])
         /\ depth' = depth + 1 /\ n' = n
Next == Start \/ Choose
Spec == Init /\ [][Next]_vars

(* every block partition gives every local sampling once *)
InvBlocks == \A i \in DOMAIN w : InBlocks(w[i]) = [k \in 1..Len(w[i].samps) |-> k]
Single == Create(Iota(ND), NT, NP, 1, <<1, 1>>, <<>>)
Fresh == w # <<>> /\ depth = 0
(* the parts of the processes are the observation of a single process *)
InvParts ==
    Fresh =>
    /\ \A d \in 0..(ND - 1) : \A t \in 0..(NT - 1) :
         Cardinality({i \in DOMAIN w : d \in Range(w[i].dets) /\ t \in Range(w[i].samps)}) = 1
    /\ LET y1 == Direct(Single[1], X, NP) IN
       \A i \in DOMAIN w : LET y == Direct(w[i], X, NP) IN
           \A j \in DOMAIN w[i].dets : \A k \in DOMAIN w[i].samps :
               y[j][k] = y1[w[i].dets[j] + 1][w[i].samps[k] + 1]
InvTranspose ==
    Fresh =>
    LET ys == [i \in DOMAIN w |-> Direct(w[i], X, NP)]
        z1 == Transpose(Single, 1, <<Direct(Single[1], X, NP)>>, NP)
    IN \A i \in DOMAIN w : Transpose(w, i, ys, NP) = z1
InvBalanced ==
    Fresh => \A i, j \in DOMAIN w : Abs(Len(w[i].dets) - Len(w[j].dets)) <= 1
                                    /\ Abs(Len(w[i].samps) - Len(w[j].samps)) <= 1
(* <Hx, Hx> = <x, HtHx> over the group of each process *)
Dot(a, b) == SumSeq([k \in DOMAIN a |-> a[k] * b[k]])
InvAdjoint ==
    \A i \in DOMAIN w :
        LET x == [k \in DOMAIN w[i].pixs |-> 1 + w[i].pixs[k]]
            ys == [j \in DOMAIN w |-> Direct(w[j], [k \in DOMAIN w[j].pixs |-> 1 + w[j].pixs[k]], NP)]
            sq == SumSeq([j \in DOMAIN w |-> IF (j - 1) \in w[i].group
                     THEN SumSeq([d \in DOMAIN ys[j] |-> Dot(ys[j][d], ys[j][d])]) ELSE 0])
        IN Dot(x, Transpose(w, i, ys, NP)) = sq
InvGroups == \A i, j \in DOMAIN w : (j - 1) \in w[i].group => w[j].group = w[i].group
=============================================================================
