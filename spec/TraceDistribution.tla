-------------------------- MODULE TraceDistribution --------------------------
(* Recorded distributions validated against the specification.                   *)
EXTENDS Distribution, Json, IOUtils
Histories == JsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, hs
vars == <<h, l, hs>>
If(ok, name) == IF ok THEN {} ELSE {name}
AllAre(sts, s) == \A i \in DOMAIN sts : sts[i] = s
Same(o, m) == o.naxis = m.naxis /\ o.crpix = m.crpix /\ o.rest
SameAll(os, ms) == Len(os) = Len(ms) /\ \A i \in DOMAIN os : Same(os[i], ms[i])
Differ(xs) == \E i, j \in DOMAIN xs : xs[i] # xs[j]
Upto(s, n) == SubSeq(s, 1, n)

(* what gather_fitsheader_if_needed refuses: the local headers must describe parts *)
(* of the same array                                                             *)
Incompatible(es) ==
    LET d == Len(es[1].naxis) IN
    \/ Differ([i \in DOMAIN es |-> Upto(es[i].naxis, d - 1)])
    \/ Differ([i \in DOMAIN es |-> Upto(es[i].crpix, d - 1)])
    \/ Differ([i \in DOMAIN es |-> es[i].tag])
Global(es) == LET d == Len(es[1].naxis) IN ~Differ([i \in DOMAIN es |-> es[i].crpix[d]])
NoWCS(e) == e.nowcs

Verdict(e) ==
    CASE e.op = "distribute" ->
           [next |-> hs, bad |->
              IF ~AllAre(e.sts, "ok") THEN {"distribute-raises"}
              ELSE If(OnceEach(e.parts, e.obs, e.dets), "once-each")
                   \cup If(Nothing(e.parts, e.obs, e.dets), "nothing-else")
                   \cup If(e.size = 1 \/ Even(e.parts, e.obs, e.dets, e.nth, e.size), "even")
                   \cup If(e.intact, "inputs-changed") \cup If(e.shapes, "shape-of-the-mask")]
      [] e.op = "header" -> [next |-> e.hs, bad |-> {}]
      [] e.op = "scatter" ->        \* every process has the global header
           LET new == [r \in 1..e.size |-> ScatterHdr(hs[1], e.size, r - 1)] IN
           [next |-> new, bad |->
              IF ~AllAre(e.sts, "ok") THEN {"scatter-raises"}
              ELSE If(SameAll(e.hs, new), "scattered") \cup If(e.intact, "inputs-changed")]
      [] e.op = "gather" ->
           LET new == [r \in DOMAIN hs |-> GatherHdr(hs, r - 1)] IN
           [next |-> new, bad |->
              IF ~AllAre(e.sts, "ok") THEN {"gather-raises"}
              ELSE If(SameAll(e.hs, new), "gathered") \cup If(e.intact, "inputs-changed")]
      [] e.op = "if_needed" ->
           LET new == [r \in DOMAIN hs |-> GatherHdr(hs, r - 1)] IN
           IF e.size = 1 THEN [next |-> hs, bad |-> If(AllAre(e.sts, "ok") /\ SameAll(e.hs, hs), "if-needed")]
           ELSE IF NoWCS(e) \/ Incompatible(hs)
           THEN [next |-> hs, bad |-> If(AllAre(e.sts, "exc:ValueError"), "not-refused")]
           ELSE IF ~AllAre(e.sts, "ok") THEN [next |-> hs, bad |-> {"if-needed-raises"}]
           ELSE [next |-> IF Global(hs) THEN hs ELSE new,
                 bad |-> If(SameAll(e.hs, IF Global(hs) THEN hs ELSE new), "if-needed")
                         \cup If(e.intact, "inputs-changed")]
      [] e.op = "bad" -> [next |-> hs, bad |-> If(AllAre(e.sts, "exc:KeyError"), "not-refused")]
      [] OTHER -> [next |-> hs, bad |-> {"unknown-event"}]

TraceInit == h \in 1..Len(Histories) /\ l = 1 /\ hs = <<>>
TraceNext ==
    /\ l <= Len(Histories[h])
    /\ LET v == Verdict(Histories[h][l]) IN
       /\ hs' = v.next
       /\ IF v.bad = {} THEN l' = l + 1
          ELSE /\ l' = Len(Histories[h]) + 1
               /\ PrintT("@@" \o ToJson([h |-> h, l |-> l, bad |-> v.bad]))
    /\ h' = h
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
