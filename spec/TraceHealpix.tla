---------------------------- MODULE TraceHealpix ----------------------------
(* Recorded conversions, convolutions, laplacians and scenes.                        *)
EXTENDS Healpix, Json, IOUtils
Histories == JsonDeserialize(IOEnv.TRACE)
VARIABLES h, l
vars == <<h, l>>
If(ok, name) == IF ok THEN {} ELSE {name}
Res(e, ok) == IF e.st # "ok" THEN {"raises"} ELSE If(ok, e.op) \cup If(e.shaped, "shape") \cup If(e.kept, "kept")
All(s, n, P(_)) == Len(s) = n /\ \A j \in 1..n : P(j)
(* correspondence of the two numbers of the pixels *)
RECURSIVE Log(_)
Log(n) == IF n = 1 THEN 0 ELSE 1 + Log(n \div 2)
RingOfNested == TLCEval([k \in 0..3 |-> [p \in 0..(NPix(2 ^ k) - 1) |-> RingOf(2 ^ k, Face(2 ^ k, p))]])
ToRing(n, nest, p) == IF nest THEN RingOfNested[Log(n)][p] ELSE p
Valid(n, p) == p >= 0 /\ p < NPix(n)
LocateOk(e) == All(e.obs, Len(e.z), LAMBDA j : Valid(e.n, e.obs[j]) /\ ToRing(e.n, e.nest, e.obs[j]) = Pixel(e.n, e.z[j], e.zq, e.t[j], e.tq))
CenterOk(e) ==
    LET c == [j \in DOMAIN e.p |-> Center(e.n, ToRing(e.n, e.nest, e.p[j]))] IN
    /\ All(e.z, Len(e.p), LAMBDA j : e.z[j] = c[j].z)
    /\ All(e.a, Len(e.p), LAMBDA j : LET d == (e.a[j] - ((c[j].t * 65536) \div c[j].d)) % 262144 IN d <= 2 \/ d >= 262142)
RoundOk(e) == All(e.obs, Len(e.p), LAMBDA j : Valid(e.n, e.obs[j]) /\ ToRing(e.n, e.to, e.obs[j]) = ToRing(e.n, e.from, e.p[j]))
EdgeTable == TLCEval([k \in 0..2 |-> [i \in 1..NPix(2 ^ k) |-> Around(2 ^ k, i - 1, EdgeSteps)]])
CornerTable == TLCEval([k \in 0..2 |-> [i \in 1..NPix(2 ^ k) |-> Around(2 ^ k, i - 1, CornerSteps)]])
Stencil(n, m, we, wc, i) ==
    LET e == EdgeTable[Log(n)][i]
        c == CornerTable[Log(n)][i]
    IN (we * SumSeq([k \in DOMAIN e |-> m[e[k] + 1]])) + (wc * SumSeq([k \in DOMAIN c |-> m[c[k] + 1]])) - (20 * m[i])
Follows(e, we, wc) == All(e.obs, Len(e.m), LAMBDA k : All(e.obs[k], NPix(e.n), LAMBDA i : e.obs[k][i] = Stencil(e.n, e.m[k], we, wc, i)))
LaplacianOf(e) == IF Follows(e, 4, 1) THEN {} ELSE IF Follows(e, 1, 4) THEN {"weights"} ELSE {"laplacian"}
SmoothOk(e) ==
    LET N == 3 * e.n * e.n IN
    /\ e.identity = (e.s2 = 0)
    /\ All(e.obs, Len(e.cols), LAMBDA k :
            LET c == e.cols[k][1]
                a == IF e.lmax >= 1 THEN e.cols[k][2] ELSE 0
                b == IF e.lmax >= 2 THEN e.cols[k][3] ELSE 0
                dipole == TLCEval(Smoothed(e.n, c, a, e.s2))
                damping == Exp32(3 * e.s2) \div 8
                tol == 16 + (((Abs(a) * N) + (6 * Abs(b) * N * N)) \div 4)
            IN All(e.obs[k], NPix(e.n), LAMBDA i :
                LET z == Center(e.n, i - 1).z IN
                Near(e.obs[k][i], dipole[i] + ((b * ((3 * z * z) - (N * N)) * damping) \div 4), tol)))
SceneOk(e) ==
    LET npix == NPix(e.n)
        shape == CASE e.k = "I" -> <<npix>> [] e.k = "QU" -> <<npix, 2>> [] OTHER -> <<npix, 3>>
    IN /\ e.kind = e.k /\ e.npixel = npix /\ e.nside = e.n /\ e.shape = shape /\ e.layout = <<npix>> /\ e.zeros = shape
       /\ e.solid = 4 /\ e.nest = e.ne /\ e.convention = e.c /\ e.len = npix
       /\ e.maps = <<<<e.n, e.ne, e.c>>, <<e.n, e.ne, e.c>>>>
UnitsOk(e) ==
    All(e.obs, Len(e.x), LAMBDA j :
        LET r == IF e.absolute THEN Planck(e.x[j]) ELSE e.factors[j] * Slope(e.x[1])
            a == IF e.absolute THEN 1 ELSE Abs(e.factors[j])
        IN Near(e.obs[j], r, (Abs(r) \div 256) + (4 * (a + 1))))
Verdict(e) ==
    CASE e.op = "locate" -> Res(e, LocateOk(e))
      [] e.op = "center" -> Res(e, CenterOk(e))
      [] e.op = "roundtrip" -> Res(e, RoundOk(e))
      [] e.op = "composed" -> Res(e, e.obs = e.steps)
      [] e.op = "laplacian" -> Res(e, TRUE) \cup (IF e.st = "ok" THEN LaplacianOf(e) ELSE {})
      [] e.op = "smooth" -> Res(e, SmoothOk(e))
      [] e.op = "scene" -> IF e.st # "ok" THEN {"raises"} ELSE If(SceneOk(e), "scene") \cup If(e.kept, "kept")
      [] e.op = "units" -> Res(e, UnitsOk(e))
      [] e.op = "refused" -> If(e.st = "exc:ValueError", e.name)
      [] e.op = "mistyped" -> If(e.st = "exc:TypeError", e.name)
      [] OTHER -> {"unknown-event"}
TraceInit == h \in 1..Len(Histories) /\ l = 1
TraceNext ==
    /\ l <= Len(Histories[h])
    /\ LET bad == Verdict(Histories[h][l]) IN
       IF bad = {} THEN l' = l + 1
       ELSE /\ l' = Len(Histories[h]) + 1
            /\ PrintT("@@" \o ToJson([h |-> h, l |-> l, bad |-> bad]))
    /\ h' = h
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
