----------------------------- MODULE TraceNoise -----------------------------
(* Recorded noise realisations and inverse covariances of instruments.             *)
EXTENDS Noise, Json, IOUtils
Histories == JsonDeserialize(IOEnv.TRACE)
VARIABLES h, l
vars == <<h, l>>
If(ok, name) == IF ok THEN {} ELSE {name}
Res(e, ok) == IF e.st # "ok" THEN {"raises"} ELSE If(ok, e.op)
Two(a, n, fs) == [i \in 1..n |-> Fixed(IF i = 1 THEN a.sigma2 ELSE Variance(a, Low(i - 1, n), n, fs))]
Verdict(e) ==
    CASE e.op = "fold" -> Res(e, e.obs = [d \in DOMAIN e.p |-> Fold(e.p[d])])
      [] e.op = "unfold" -> Res(e, e.obs = [d \in DOMAIN e.p |-> Unfold(e.p[d])])
      [] e.op = "spectrum" ->
           Res(e, \A d \in DOMAIN e.models : LET p == Two(e.models[d], e.n, e.fs)
                                            IN Near(e.obs[d], IF e.twosided THEN p ELSE Fold(p), 4))
      [] e.op = "invntt" ->
           Res(e, Len(e.obs) = Len(e.y) /\ \A d \in DOMAIN e.y :
                    Near(e.obs[d], Weighted(Row(Of(e.models, d), e.n, e.fs), e.ncorr, e.y[d]), 100))
      [] e.op = "draw" ->
           Res(e, Len(e.obs) = Len(e.z) /\ \A d \in DOMAIN e.z :
                    Near(e.obs[d], IF e.white THEN LET s == Sqrt(Fixed(Of(e.models, d).sigma2)) \div 4
                                                   IN [t \in 1..e.n |-> (s * e.z[d][t]) \div 1024]
                                   ELSE Drawn(Of(e.models, d), e.fs, e.z[d]), 24))
           \cup (IF e.st = "ok" THEN If(e.buffer, "buffer") ELSE {})
      [] e.op = "statistics" -> Res(e, /\ \A d \in DOMAIN e.obs : e.obs[d] \in 85..115
                                       /\ \A d \in DOMAIN e.corr : Abs(e.corr[d]) <= 12)
      [] e.op = "refused" -> If(e.st = "exc:ValueError", e.name)
      [] OTHER -> {"unknown-event"}
TraceInit == h \in 1..Len(Histories) /\ l = 1
TraceNext ==
    /\ l <= Len(Histories[h])
    /\ LET bad == Verdict(Histories[h][l]) IN
       IF bad = {} THEN l' = l + 1
       ELSE /\ l' = Len(Histories[h]) + 1
            /\ PrintT("@@" \o ToJson([h |-> h, l |-> l, bad |-> bad]))
    /\ h' = h
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
