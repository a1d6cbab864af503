----------------------------- MODULE TraceFrames -----------------------------
(* Recorded walks of vectors between the frames, and samplings.                   *)
EXTENDS Frames, Json, IOUtils
Histories == JsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, cur
vars == <<h, l, cur>>
If(ok, name) == IF ok THEN {} ELSE {name}
Same(bad) == [next |-> cur, bad |-> bad]
(* 25 times the coordinates of the vectors in a frame; galactic ones are observed as equatorial ones *)
Coords(frame, vs, sites) == [i \in DOMAIN vs |-> IF frame = "H" THEN Horizontal(vs[i], sites[i]) ELSE Times(25, vs[i])]
SamplingSites(site, index) == [k \in DOMAIN index |-> SiteAt(site, index[k])]
Verdict(e) ==
    CASE e.op = "start" -> [next |-> [vs |-> e.vs, frame |-> "E", sites |-> e.sites], bad |-> {}]
      [] e.op = "step" ->       \* through one operator or several
           IF e.st # "ok" THEN Same({"step-raises"})
           ELSE LET sites == IF e.sites = <<>> THEN cur.sites ELSE e.sites IN
                [next |-> [cur EXCEPT !.frame = e.to, !.sites = sites],
                 bad |-> If(e.obs = Coords(e.to, cur.vs, sites), e.name) \cup If(e.intact, "input-changed") \cup If(e.buffer, "buffer")]
      [] e.op = "back" ->       \* there and back without a stop
           Same(If(e.st = "ok" /\ e.obs = Coords(cur.frame, cur.vs, cur.sites), e.name))
      [] e.op = "refused" -> Same(If(e.st = "exc:ValueError", "not-refused"))
      [] e.op = "sampling" ->   \* of the directions vs, in the frame of the sampling
           [next |-> [kind |-> e.kind, vs |-> e.vs, site |-> e.site, index |-> e.index, mask |-> e.mask],
            bad |-> If(e.st = "ok", "sampling-raises")]
      [] e.op = "subset" ->
           LET s == e.sel IN
           [next |-> [cur EXCEPT !.vs = SeqTake(@, s), !.index = SeqTake(@, s), !.mask = SeqTake(@, s)],
            bad |-> If(e.st = "ok", "subset-raises")]
      [] e.op = "move" -> [next |-> [cur EXCEPT !.vs = e.vs], bad |-> If(e.st = "ok", "move-raises")]
      [] e.op = "attribute" ->
           LET sites == SamplingSites(cur.site, cur.index)
               eq == IF cur.kind = "H" THEN [i \in DOMAIN cur.vs |-> Equatorial(cur.vs[i], sites[i])]
                     ELSE [i \in DOMAIN cur.vs |-> Times(25, cur.vs[i])]
               own == [i \in DOMAIN cur.vs |-> Times(25, cur.vs[i])]
               want == IF e.name \in {"equatorial", "galactic"} THEN eq ELSE own
           IN Same(If(e.st = "ok" /\ e.obs = want, e.name))
      [] e.op = "center" ->     \* direction of the sum of the unit vectors that are not masked
           LET vs == Unmasked(cur.vs, cur.mask) IN
           Same(IF vs = <<>> THEN If(e.st = "exc:ValueError", "center-of-nothing")
                ELSE If(e.st = "ok" /\ (SumV(vs) # <<0, 0, 0>> => e.obs = SumV(vs)), "center"))
      [] e.op = "date" ->       \* start of the sampling and times of the samples, in seconds from the date given
           Same(If(e.st = "ok" /\ e.start = 0 /\ e.times = [k \in DOMAIN e.index |-> e.index[k] * e.period], "date"))
      [] OTHER -> Same({"unknown-event"})
TraceInit == h \in 1..Len(Histories) /\ l = 1 /\ cur = <<>>
TraceNext ==
    /\ l <= Len(Histories[h])
    /\ LET v == Verdict(Histories[h][l]) IN
       /\ cur' = v.next
       /\ IF v.bad = {} THEN l' = l + 1
          ELSE /\ l' = Len(Histories[h]) + 1
               /\ PrintT("@@" \o ToJson([h |-> h, l |-> l, bad |-> v.bad]))
    /\ h' = h
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
