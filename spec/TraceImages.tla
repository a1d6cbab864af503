---------------------------- MODULE TraceImages ----------------------------
(* Recorded images, profiles and power spectra.                                    *)
EXTENDS Images, Json, IOUtils
Histories == JsonDeserialize(IOEnv.TRACE)
VARIABLES h, l
vars == <<h, l>>
If(ok, name) == IF ok THEN {} ELSE {name}
Res(e, ok) == IF e.st # "ok" THEN {"raises"} ELSE If(ok, e.op) \cup If(e.meta, "type") \cup If(e.kept, "kept")
UnitOf(e) == If(e.unit = IF e.u = "" THEN "" ELSE IF e.squared THEN e.u \o "^2" ELSE e.u, "unit")
All(s, n, P(_)) == Len(s) = n /\ \A j \in 1..n : P(j)
(* kinds of results: "f" floating point, "h" half precision, "i" truncated to integers *)
DistanceOk(e) ==
    LET d == Distances2(e.shape, e.c, e.s) IN
    All(e.obs, Len(d), LAMBDA j :
        IF e.kind = "i" THEN IF e.squared THEN e.obs[j] = d[j] \div 64
                             ELSE e.obs[j] >= 0 /\ e.obs[j] * e.obs[j] * 64 <= d[j] /\ (e.obs[j] + 1) * (e.obs[j] + 1) * 64 > d[j]
        ELSE IF e.squared THEN Near(e.obs[j], d[j] * 16, IF e.kind = "h" THEN 1 + (d[j] \div 32) ELSE 0)
        ELSE Near(e.obs[j], Root(d[j] * 16384), IF e.kind = "h" THEN 32 ELSE 2))
Bins(e) == IF e.nbins = NONE THEN DefaultBins(e.nr, e.nc, e.c, e.b, e.s) ELSE e.nbins
ProfileOk(e) ==
    LET n == Bins(e)
        p == Profile(e.v, e.nr, e.nc, e.c, e.b, e.s, n)
    IN IF e.integrated
       THEN All(e.x, n, LAMBDA k : e.x[k] = 256 * e.b * k) /\ All(e.y, n, LAMBDA k : e.y[k] = Cumulated(p, k) * e.s * e.s)
       ELSE /\ All(e.n, n, LAMBDA k : e.n[k] = p[k].n)
            /\ All(e.y, n, LAMBDA k : e.y[k] = IF p[k].n = 0 THEN NAN ELSE p[k].sum)
            /\ All(e.x, n, LAMBDA k : IF p[k].n = 0 THEN e.x[k] = 128 * e.b * ((2 * k) - 1)
                                      ELSE Near(2 * p[k].n * e.x[k], e.s * p[k].radius, (e.s + 4) * p[k].n))
AiryOk(e) ==
    LET a == TLCEval(Airy(e.shape, e.c, e.s, e.r, e.zero))
        t == SumSeq(a)
    IN /\ All(e.obs, Len(a), LAMBDA j : Near((e.obs[j] * t) \div 65536, a[j], 24))
       /\ Near(SumSeq(e.obs), 65536, Len(a))
RingProfile(e) ==
    LET c == <<4 * (e.nr \div 2), 4 * (e.nr \div 2)>>
        n == DefaultBins(e.nr, e.nr, c, 4, 2)
        f == TLCEval(Spectrum(e.v, e.nr, e.nr))
        one == [j \in 1..(e.nr * e.nr) |-> 1]
    IN /\ All(e.y, n, LAMBDA k :
                LET r == Ring(one, e.nr, e.nr, c, 4, 2, k) IN
                IF r = << >> THEN e.y[k] = NAN
                ELSE Near(e.y[k] * Len(r), Over(r, LAMBDA j : f[j].p), Len(r) + Over(r, LAMBDA j : f[j].tol)))
       /\ All(e.x, n, LAMBDA k :
                LET r == Ring(one, e.nr, e.nr, c, 4, 2, k) IN
                IF r = << >> THEN e.x[k] = 512 * ((2 * k) - 1)
                ELSE Near(2 * Len(r) * e.x[k], 2 * Over(r, LAMBDA j : Root(Dist(e.nr, e.nr, c, j) * 65536)), 8 * Len(r)))
Verdict(e) ==
    CASE e.op = "distance" -> Res(e, DistanceOk(e)) \cup (IF e.st = "ok" THEN UnitOf(e) ELSE {})
      [] e.op = "aperture" -> Res(e, e.obs = Disk(e.shape, e.c, e.s, e.d)) \cup (IF e.st = "ok" THEN If(e.unit = "", "unit") ELSE {})
      [] e.op = "profile" -> Res(e, ProfileOk(e))
      [] e.op = "gaussian" -> LET g == Gauss(e.shape, e.c, e.s) IN Res(e, All(e.obs, Len(g), LAMBDA j : Near(e.obs[j], g[j], 12)))
      [] e.op = "airy" -> Res(e, AiryOk(e))
      [] e.op = "phase" -> Res(e, All(e.obs, e.nr * e.nc, LAMBDA j : e.obs[j] = Quadrant(e.nr, e.nc, j, e.phase)))
      [] e.op = "psd" -> LET f == TLCEval(Spectrum(e.v, e.nr, e.nc)) IN
                         Res(e, All(e.obs, Len(f), LAMBDA j : Near(e.obs[j], f[j].p, f[j].tol)))
      [] e.op = "ring" -> Res(e, RingProfile(e))
      [] e.op = "refused" -> If(e.st = "exc:ValueError", e.name)
      [] OTHER -> {"unknown-event"}
TraceInit == h \in 1..Len(Histories) /\ l = 1
TraceNext ==
    /\ l <= Len(Histories[h])
    /\ LET bad == Verdict(Histories[h][l]) IN
       IF bad = {} THEN l' = l + 1
       ELSE /\ l' = Len(Histories[h]) + 1
            /\ PrintT("@@" \o ToJson([h |-> h, l |-> l, bad |-> bad]))
    /\ h' = h
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
