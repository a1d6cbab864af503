-------------------------- MODULE TraceAcquisition --------------------------
(* Histories of acquisitions recorded from the code, validated against the        *)
(* specification.  The registers hold acquisitions: the descriptions of their     *)
(* processes.                                                                    *)
EXTENDS Acquisition, Json, IOUtils
Histories == JsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, rs
vars == <<h, l, rs>>
If(ok, name) == IF ok THEN {} ELSE {name}
Put(s, i, x) == IF i <= Len(s) THEN [s EXCEPT ![i] = x] ELSE Append(s, x)

(* observed description of a process *)
ProcBad(a, o) ==
    If(o.dets = a.dets, "detectors") \cup If(o.samps = a.samps, "samplings")
    \cup If(o.pixs = a.pixs, "pixels") \cup If(o.size = Cardinality(a.group), "communicator")
WorldBad(w, os) ==
    IF Len(os) # Len(w) THEN {"processes"} ELSE UNION {ProcBad(w[i], os[i]) : i \in DOMAIN w}
Resolved(b, n) == [i \in DOMAIN b |-> <<SliceStart(b[i][1], 1, n), SliceStop(b[i][2], 1, n)>>]
(* the blocks for a limit of memory: contiguous, and not larger than required *)
CutBad(bs, n, nd, nbytes, limit) ==
    LET nb == nbytes * nd * n
        m == IF nb <= limit THEN 1 ELSE CeilDiv(nb, limit)
    IN If(Flatten([i \in DOMAIN bs |-> Positions(bs[i], n)]) = [k \in 1..n |-> k], "blocks")
       \cup If(\A i \in DOMAIN bs : bs[i][2] - bs[i][1] <= CeilDiv(n, m), "block-size")

AllOk(e) == \A i \in DOMAIN e.sts : e.sts[i] = "ok"
Good(e, s) == IF AllOk(e) THEN [next |-> s, bad |-> {}] ELSE [next |-> s, bad |-> {e.op \o "-raises"}]
Check(e, s, bad(_)) ==       \* bad(i): problems of the result of process i
    IF ~AllOk(e) THEN [next |-> s, bad |-> {e.op \o "-raises"}]
    ELSE [next |-> s, bad |-> UNION {bad(i) : i \in DOMAIN e.sts}]

Verdict(s, e) ==
    CASE e.op = "create" ->
           LET g == Grid(e.n, e.ni, e.ns) IN
           IF g = <<>> THEN [next |-> s, bad |-> If(\A i \in DOMAIN e.sts : e.sts[i] = "exc:ValueError", "not-refused")]
           ELSE IF ~AllOk(e) THEN [next |-> s, bad |-> {"create-raises"}]
           ELSE LET w0 == Create(e.dets, e.nt, e.np, e.n, g, <<>>)
                    w == [i \in DOMAIN w0 |-> [w0[i] EXCEPT !.blocks = Resolved(e.obs[i].blocks, Len(w0[i].samps))]]
                IN [next |-> Put(s, e.dst, w),
                    bad |-> WorldBad(w, e.obs) \cup
                            (IF e.limit # NONE
                             THEN UNION {CutBad(w[i].blocks, Len(w[i].samps), Len(w[i].dets), e.nbytes, e.limit) : i \in DOMAIN w}
                             ELSE UNION {If(InBlocks(w[i]) = [k \in 1..Len(w[i].samps) |-> k], "blocks") : i \in DOMAIN w})]
      [] e.op = "badblock" -> [next |-> s, bad |-> If((\E i \in DOMAIN e.sts : e.sts[i] = "exc:TypeError")
                /\ \A i \in DOMAIN e.sts : e.sts[i] \in {"exc:TypeError", "exc:FakeMPIError"}, "not-refused")]
      [] e.op = "select" ->
           IF ~AllOk(e) THEN [next |-> s, bad |-> {"select-raises"}]
           ELSE LET w0 == SelectAll(s[e.a], e.sels)
                    w == [i \in DOMAIN w0 |-> [w0[i] EXCEPT !.blocks = Resolved(e.obs[i].blocks, Len(w0[i].samps))]]
                IN [next |-> Put(s, e.dst, w),
                    bad |-> WorldBad(w, e.obs) \cup WorldBad(s[e.a], e.old)
                            \cup UNION {If(InBlocks(w[i]) = [k \in 1..Len(w[i].samps) |-> k], "blocks") : i \in DOMAIN w}]
      [] e.op = "badselect" -> [next |-> s, bad |-> If(\A i \in DOMAIN e.sts : e.sts[i] # "ok", "not-refused")]
      [] e.op = "direct" ->
           LET w == s[e.a]
               B(i) == If(e.res[i] = Direct(w[i], e.x[i], e.np), "direct")
           IN Check(e, s, B)
      [] e.op = "transpose" ->
           LET w == s[e.a]
               B(i) == If(e.res[i] = Transpose(w, i, e.y, e.np), "transpose")
           IN Check(e, s, B)
      [] e.op = "noise" ->         \* in a buffer holding y, or in a new array
           LET w == s[e.a]
               B(i) == If(e.res[i] = IF e.add THEN AddTo(e.y[i], NoiseOf(w[i])) ELSE NoiseOf(w[i]), "noise")
           IN Check(e, s, B)
      [] e.op = "observe" ->
           LET w == s[e.a]
               D(i) == Direct(w[i], e.x[i], e.np)
               F(i) == IF e.noiseless THEN D(i) ELSE AddTo(D(i), NoiseOf(w[i]))
               B(i) == If(e.res[i] = IF e.add THEN AddTo(e.y[i], F(i)) ELSE F(i), "observation")
           IN Check(e, s, B)
      [] e.op = "weight" ->
           LET w == s[e.a]
               B(i) == If(e.res[i] = Weighted(w[i], e.y[i]), "weight")
           IN Check(e, s, B)
      [] e.op = "pack" ->          \* x over the whole table of detectors
           LET w == s[e.a]
               B(i) == If(e.res[i] = [k \in DOMAIN w[i].dets |-> e.x[w[i].dets[k] + 1]], "pack")
                       \cup If(e.buf[i], "pack-buffer")
           IN Check(e, s, B)
      [] e.op = "unpack" ->
           LET w == s[e.a]
               (* gathered from the processes which share the instrument *)
               Ds(i) == UNION {{<<p, j>> : j \in DOMAIN w[p + 1].dets} : p \in w[i].inst}
               Is(q, k) == w[q[1] + 1].dets[q[2]] = k - 1
               B(i) == If(e.res[i] = [k \in 1..e.size |->
                             IF \E q \in Ds(i) : Is(q, k)
                             THEN LET q == CHOOSE q \in Ds(i) : Is(q, k) IN e.v[q[1] + 1][q[2]]
                             ELSE e.missing], "unpack") \cup If(e.buf[i], "unpack-buffer")
           IN Check(e, s, B)
      [] e.op = "parts" ->         \* iteration over or split of the instrument
           LET w == s[e.a]
               B(i) == LET n == Len(w[i].dets)
                           bs == SplitBlocks(n, IF e.m = 0 THEN Max2(n, 1) ELSE e.m)
                       IN If(e.res[i] = (IF e.m = 0 THEN [k \in 1..n |-> <<w[i].dets[k]>>]
                             ELSE [k \in 1..e.m |-> SubSeq(w[i].dets, bs[k][1] + 1, bs[k][2])]), "parts")
           IN Check(e, s, B)
      [] e.op = "nbytes" ->
           LET w == s[e.a]
               B(i) == If(e.res[i] = e.nbytes * Len(w[i].dets) * Len(w[i].samps), "nbytes")
           IN Check(e, s, B)
      [] e.op = "scatter" ->       \* a distributed instrument is not scattered again
           [next |-> s, bad |-> If(\A i \in DOMAIN e.sts : e.sts[i] = (IF e.shared THEN "exc:ValueError" ELSE "ok"), "scatter")]
      [] OTHER -> [next |-> s, bad |-> {"unknown-event"}]

TraceInit == h \in 1..Len(Histories) /\ l = 1 /\ rs = <<>>
TraceNext ==
    /\ l <= Len(Histories[h])
    /\ LET v == Verdict(rs, Histories[h][l]) IN
       /\ rs' = v.next
       /\ IF v.bad = {} THEN l' = l + 1
          ELSE /\ l' = Len(Histories[h]) + 1
               /\ PrintT("@@" \o ToJson([h |-> h, l |-> l, bad |-> v.bad]))
    /\ h' = h
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
