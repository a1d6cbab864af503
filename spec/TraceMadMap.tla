---------------------------- MODULE TraceMadMap ----------------------------
(* Recorded uses of observations in the MADMAP1 format.                            *)
EXTENDS MadMap, Json, IOUtils
Histories == JsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, cur
vars == <<h, l, cur>>
If(ok, name) == IF ok THEN {} ELSE {name}
Res(e, ok) == IF e.st # "ok" THEN {"raises"} ELSE If(ok, e.op) \cup If(e.types, "types")
(* the operations which need the time-ordered file *)
Read(f, e, want) == IF Reading(f) # "ok" THEN If(e.st = Reading(f), "file-size") ELSE Res(e, e.obs = want)
Verdict(e) ==
    IF e.op = "open" THEN [next |-> IF Opening(e.files) = "ok" THEN e.files ELSE <<>>, bad |-> If(e.st = Opening(e.files), "open")]
    ELSE LET f == cur IN
    [next |-> cur, bad |->
     CASE e.op = "info" ->
            Res(e, /\ e.n = Ns(f) /\ e.start = [b \in 1..NBlocks(f) |-> Start(f, b)]
                   /\ e.stop = [b \in 1..NBlocks(f) |-> Start(f, b) + Ns(f)[b]]
                   /\ e.detectors = f.nd /\ e.samples = NSamples(f) /\ e.npps = f.npps /\ e.npix = f.npix
                   /\ e.ncorr = Len(f.filters[1].data) /\ e.naxis1 = f.npix
                   /\ e.masked = [i \in DOMAIN f.mask |-> Masked(f.mask[i], f.missing)]
                   /\ e.filters = [b \in 1..NBlocks(f) |-> [d \in 1..f.nd |-> Filter(f, b, d).data]])
       [] e.op = "tod" -> Read(f, e, Signal(f))
       [] e.op = "project" -> Read(f, e, Project(f, e.map))
       [] e.op = "back" -> Read(f, e, Back(f, e.tod))
       [] e.op = "invntt" -> Res(e, e.obs = Invntt(f, e.tod))
       [] e.op = "normal" -> Read(f, e, Back(f, Invntt(f, Project(f, e.map))))
       [] OTHER -> {"unknown-event"}]
TraceInit == h \in 1..Len(Histories) /\ l = 1 /\ cur = <<>>
TraceNext ==
    /\ l <= Len(Histories[h])
    /\ LET v == Verdict(Histories[h][l]) IN
       /\ cur' = v.next
       /\ IF v.bad = {} THEN l' = l + 1
          ELSE /\ l' = Len(Histories[h]) + 1
               /\ PrintT("@@" \o ToJson([h |-> h, l |-> l, bad |-> v.bad]))
    /\ h' = h
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
