----------------------------- MODULE TraceHeaders -----------------------------
(* Recorded operations on headers validated against the specification.           *)
EXTENDS Headers, Json, IOUtils
Histories == JsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, cur
vars == <<h, l, cur>>
If(ok, name) == IF ok THEN {} ELSE {name}
(* requests that must be refused *)
Refused(e) == e.bad # "no"
Same(o, m) == o.naxis = m.naxis /\ o.bitpix = m.bitpix /\ o.ext = m.ext /\ o.shape = ShapeOf(m)
              /\ o.data
SameW(o, m) == IF m.w = <<>> THEN o.w = <<>> /\ ~o.has
               ELSE o.w = m.w /\ o.has = (Len(m.naxis) = 2)
Verdict(e) ==
    CASE e.op = "create" ->
           IF Refused(e) THEN [next |-> cur, bad |-> If(e.st = "exc:ValueError", "not-refused")]
           ELSE IF e.st # "ok" THEN [next |-> cur, bad |-> {"create-raises"}]
           ELSE LET cd == IF e.how = "cdelt" THEN CD(e.c, e.t) ELSE e.cd
                    w == IF e.how = "none" THEN <<>>
                         ELSE << [crval |-> e.crval, cd |-> cd, ctype |-> e.ctype,
                                  crpix |-> IF e.crpix = <<>> THEN <<e.naxis[1] + 1, e.naxis[2] + 1>> ELSE e.crpix] >>
                    m == [naxis |-> e.naxis, bitpix |-> e.bitpix, ext |-> e.ext, w |-> w]
                IN [next |-> m, bad |-> If(Same(e.obs, m), "array") \cup If(SameW(e.obs, m), "wcs")]
      [] e.op = "decompose" ->
           IF cur.w = <<>> THEN [next |-> cur, bad |-> If(e.st = "exc:KeyError", "not-refused")]
           ELSE IF e.st # "ok" THEN [next |-> cur, bad |-> {"decompose-raises"}]
           ELSE [next |-> cur, bad |->
                   If(e.c[2] > 0 /\ CD(e.c, e.t) = cur.w[1].cd, "decomposed") \cup If(e.again = cur.w[1].cd, "remade")]
      [] e.op = "classic" ->    \* CDELT, CROTA2
           [next |-> cur, bad |-> If(e.st = "ok" /\ e.c = e.cdelt /\ e.t = e.pa, "classic")]
      [] e.op = "world" ->      \* arrays of pixels
           IF e.st # "ok" THEN [next |-> cur, bad |-> {"world-raises"}]
           ELSE [next |-> cur, bad |->
                   If(Len(e.qs) = Len(e.ps) /\ \A i \in DOMAIN e.ps :
                        InPlane(cur.w[1], e.ps[i]) =>
                        e.qs[i] = World(cur.w[1], e.ps[i]),
                      "world")
                   \cup If(e.intact, "input-changed") \cup If(e.buffer, "buffer")]
      [] e.op = "pixel" ->      \* of the world coordinates of the pixels ps
           IF e.st # "ok" THEN [next |-> cur, bad |-> {"pixel-raises"}]
           ELSE [next |-> cur, bad |->
                   If(Len(e.qs) = Len(e.ps) /\ \A i \in DOMAIN e.ps : InPlane(cur.w[1], e.ps[i]) => e.qs[i] = e.ps[i], "pixel")
                   \cup If(e.intact, "input-changed") \cup If(e.buffer, "buffer")]
      [] e.op = "invalid" -> [next |-> cur, bad |-> If(e.st = "exc:ValueError", "not-refused")]
      [] e.op = "scene" ->      \* index of the pixels in the scene described by the header
           IF e.st # "ok" THEN [next |-> cur, bad |-> {"scene-raises"}]
           ELSE [next |-> cur, bad |->
                   If(e.shape = ShapeOf(cur), "scene-shape")
                   \cup If(\A i \in DOMAIN e.ij : e.index[i] = e.ij[i][1] + cur.naxis[1] * e.ij[i][2], "scene-index")
                   \cup If(e.back = e.ij, "scene-inverse")
                   \cup If(\A i \in DOMAIN e.ij : e.rc[i] = <<e.ij[i][2], e.ij[i][1]>>, "row-column")
                   \cup If(\A i \in DOMAIN e.ij : InPlane(cur.w[1], <<2 * e.ij[i][1] + 2, 2 * e.ij[i][2] + 2>>)
                               => e.seen[i] = e.index[i], "pixel-of-the-world")]
      [] e.op = "string" ->     \* back from a string of cards
           [next |-> cur, bad |-> If(e.st = "ok", "string-raises") \cup If(e.st = "ok" => e.same, "string")]
      [] e.op = "combine" ->
           IF e.st # "ok" THEN [next |-> cur, bad |-> {"combine-raises"}]
           ELSE [next |-> cur, bad |->
                   \* positions in thousandths of pixel of the corners of the maps
                   If(\A i \in DOMAIN e.corners : \A k \in 1..2 :
                        /\ e.corners[i][k] >= 500 - 2
                        /\ e.corners[i][k] <= 1000 * e.naxis[k] + 500 + 2, "not-covered")
                   \cup If(~e.tight \/ \A k \in 1..2 : /\ \E i \in DOMAIN e.corners : e.corners[i][k] <= 1500 + 2
                                          /\ \E i \in DOMAIN e.corners : e.corners[i][k] >= 1000 * e.naxis[k] - 500 - 2, "too-large")
                   \cup If(e.cdelt = e.want, "scale")
                   \cup If(e.n = 0 \/ (e.pa - e.sum) % (360 * 10 * e.n) = 0 \* n times the angle, in tenths
                           , "rotation") \cup If(e.intact, "input-changed")]
      [] e.op = "mean" ->       \* angles in degrees; 60 times the results
           [next |-> cur, bad |->
              IF e.vs = <<>> THEN If(e.mean = NAN /\ e.min = NAN /\ e.max = NAN, "mean-of-nothing")
              ELSE If((Len(e.vs) * e.mean - 60 * MeanN(e.vs, 360)) % (60 * 360 * Len(e.vs)) = 0, "mean")
                   \cup If(e.min % 21600 = 60 * MinArc(e.vs, 360) % 21600, "min")
                   \cup If(e.max % 21600 = 60 * MaxArc(e.vs, 360), "max")]
      [] e.op = "angle" ->
           [next |-> cur, bad |->
              If(e.st = "ok" /\ Len(e.out) = Max2(Len(e.a), Len(e.b)) /\ \A i \in DOMAIN e.out :
                   e.out[i] = Angle(e.a[IF Len(e.a) = 1 THEN 1 ELSE i], e.b[IF Len(e.b) = 1 THEN 1 ELSE i]), "angle")
              \cup If(e.scalar, "scalar")]
      [] e.op = "barycenter" ->  \* of points symmetric with respect to a known one
           [next |-> cur, bad |-> If(e.st = "ok" /\ e.out = e.centre, "barycenter")]
      [] OTHER -> [next |-> cur, bad |-> {"unknown-event"}]
TraceInit == h \in 1..Len(Histories) /\ l = 1 /\ cur = <<>>
TraceNext ==
    /\ l <= Len(Histories[h])
    /\ LET v == Verdict(Histories[h][l]) IN
       /\ cur' = v.next
       /\ IF v.bad = {} THEN l' = l + 1
          ELSE /\ l' = Len(Histories[h]) + 1
               /\ PrintT("@@" \o ToJson([h |-> h, l |-> l, bad |-> v.bad]))
    /\ h' = h
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
