---------------------------- MODULE TraceSpectra ----------------------------
(* Recorded black bodies, distortions, rotations and samplings.                       *)
EXTENDS Spectra, Json, IOUtils
Histories == JsonDeserialize(IOEnv.TRACE)
VARIABLES h, l
vars == <<h, l>>
If(ok, name) == IF ok THEN {} ELSE {name}
Res(e, ok) == IF e.st # "ok" THEN {"raises"} ELSE If(ok, e.op) \cup If(e.shaped, "shape") \cup If(e.kept, "kept")
All(s, n, P(_)) == Len(s) = n /\ \A j \in 1..n : P(j)
FluxOk(e) == /\ (e.k = e.k0 => e.identity)
             /\ All(e.obs, Len(e.v), LAMBDA j :
                  LET f == Flux(e.k, e.k0, e.m[j], e.beta[j])
                  IN Near(e.obs[j], e.v[j] * f, ((Abs(e.v[j]) * f) \div 64) + (4 * Abs(e.v[j]))))
(* laws: the reference of an operator may be the frequency of another one; wavelengths and frequencies are equivalent *)
LawsOk(e) == e.chain = 1000000 /\ e.back = 1000000 /\ e.wave = 1000000
DistortionOk(e) ==
    All(e.obs, Len(e.p), LAMBDA j :
        IF Within(e.p[j], 16 * e.n)
        THEN LET q == Affine(<<e.t[1], e.t[2], e.t[3], e.t[4], 16 * e.t[5], 16 * e.t[6]>>, e.p[j])
             IN e.obs[j] # <<NAN, NAN>> /\ Near(e.obs[j][1], 64 * q[1], 1) /\ Near(e.obs[j][2], 64 * q[2], 1)
                /\ Near(e.back[j][1], 64 * e.p[j][1], 2) /\ Near(e.back[j][2], 64 * e.p[j][2], 2)
        ELSE e.obs[j] = <<NAN, NAN>>)
RotationOk(e) ==
    All(e.obs, Len(e.d), LAMBDA i : All(e.obs[i], Len(e.p), LAMBDA j :
        e.obs[i][j] = <<East(e.d[i], e.p[j][1], e.p[j][2]), North(e.d[i], e.p[j][1], e.p[j][2])>>))
Sample(a, j) == IF Len(a) = 1 THEN a[1] ELSE a[j]
SamplingOk(e) ==
    /\ e.len = e.n
    /\ All(e.obs, 3, LAMBDA k : All(e.obs[k], e.n, LAMBDA j : e.obs[k][j] = Sample(e.a[k], j)))
    /\ All(e.spherical, e.n, LAMBDA j : e.spherical[j] = <<Sample(e.a[1], j), Sample(e.a[2], j)>>)
Verdict(e) ==
    CASE e.op = "flux" -> Res(e, FluxOk(e))
      [] e.op = "laws" -> Res(e, LawsOk(e))
      [] e.op = "distortion" -> Res(e, DistortionOk(e))
      [] e.op = "rotation" -> Res(e, RotationOk(e))
      [] e.op = "sampling" -> Res(e, SamplingOk(e))
      [] e.op = "refused" -> If(e.st = "exc:ValueError", e.name)
      [] e.op = "mistyped" -> If(e.st = "exc:TypeError", e.name)
      [] OTHER -> {"unknown-event"}
TraceInit == h \in 1..Len(Histories) /\ l = 1
TraceNext ==
    /\ l <= Len(Histories[h])
    /\ LET bad == Verdict(Histories[h][l]) IN
       IF bad = {} THEN l' = l + 1
       ELSE /\ l' = Len(Histories[h]) + 1
            /\ PrintT("@@" \o ToJson([h |-> h, l |-> l, bad |-> bad]))
    /\ h' = h
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
