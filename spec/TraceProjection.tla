--------------------------- MODULE TraceProjection ---------------------------
(* Recorded operations on pointing matrices validated against the specification. *)
EXTENDS Projection, Json, IOUtils
Histories == JsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, cur
vars == <<h, l, cur>>
If(ok, name) == IF ok THEN {} ELSE {name}
St(e) == If(e.st = "ok", "raises")
Okd(e, cond, name) == IF e.st # "ok" THEN {"raises"} ELSE If(cond, name)
Same(bad) == [next |-> cur, bad |-> bad]
NPix(shape) == ProdSeq(shape)
(* the observed matrix is that of the model: the values after the end of a row do not count *)
Is(o, m) == o.shin = m.shin /\ o.shout = m.shout /\ Effs(o.rows) = Effs(m.rows)
Leftward(d, shout) == LET n == Len(d) IN [s \in 1..ProdSeq(shout) |-> d[((s - 1) % n) + 1]]
Mult(u, v) == u \o v
Verdict(e) ==
    CASE e.op = "new" ->
           LET m == [shin |-> e.shin, shout |-> e.shout, n |-> e.n,
                     rows |-> IF e.how \in {"zeros", "ones"} THEN [s \in 1..ProdSeq(e.shout) |-> [k \in 1..e.n |-> <<-1, IF e.how = "ones" THEN 4 ELSE 0>>]]
                              ELSE e.rows]
           IN [next |-> m, bad |-> Okd(e, e.obs.shin = m.shin /\ e.obs.shout = m.shout /\ e.obs.rows = m.rows, "matrix")]
      [] e.op = "fill" ->       \* assignment of the rows
           LET m == [cur EXCEPT !.rows = e.rows]
           IN [next |-> m, bad |-> Okd(e, e.obs.rows = m.rows, "filled")]
      [] e.op = "isvalid" -> Same(Okd(e, e.out = Valid(e.rows, NPix(cur.shin)), "isvalid"))
      [] e.op = "get_mask" ->
           Same(IF e.wrong # "no" THEN If(e.st = e.wrong, "not-refused")
                ELSE Okd(e, e.out = MaskOf(cur.rows, NPix(cur.shin), e.mask0), "mask") \cup If(e.same, "buffer"))
      [] e.op = "pack" ->
           LET m == [cur EXCEPT !.rows = Pack(cur.rows, e.mask), !.shin = <<Kept(e.mask)>>]
           IN [next |-> [m EXCEPT !.rows = e.obs.rows], bad |-> Okd(e, Is(e.obs, m), "packed") \cup If(e.intact, "mask-changed")]
      [] e.op = "apply_mask" ->
           IF e.wrong THEN Same(If(e.st = "exc:ValueError", "not-refused"))
           ELSE LET m == [cur EXCEPT !.rows = ApplyMask(cur.rows, e.mask)]
                IN [next |-> m, bad |-> Okd(e, Is(e.obs, m), "masked")]
      [] e.op = "direct" ->
           Same(Okd(e, e.out = Direct(cur.rows, e.x), "direct") \cup If(e.intact, "input-changed") \cup If(e.buffer, "buffer"))
      [] e.op = "transpose" ->
           Same(Okd(e, e.out = Back(cur.rows, NPix(cur.shin), e.x), "transpose") \cup If(e.intact, "input-changed")
                \cup If(e.buffer, "buffer"))
      [] e.op = "ptp" ->        \* (P.T * P)(x)
           LET m == PTP(cur.rows, NPix(cur.shin)) IN
           Same(Okd(e, \A p \in DOMAIN e.x : e.out[p] = SumSeq([q \in DOMAIN e.x |-> m[p][q] * e.x[q]]), "ptp")
                \cup If(e.intact, "input-changed"))
      [] e.op = "get_pTp" -> Same(Okd(e, e.out = PTP(cur.rows, NPix(cur.shin)), "pTp"))
      [] e.op = "pTx_pT1" ->
           Same(Okd(e, /\ e.out = Back(cur.rows, NPix(cur.shin), Zeroed(e.x, e.mask))
                       /\ e.cov = Back(cur.rows, NPix(cur.shin), Zeroed(One(Len(e.x)), e.mask)), "pTx_pT1")
                \cup If(e.intact, "input-changed"))
      [] e.op = "diagonal" ->   \* (D * P)(x)
           LET d == Leftward(e.d, cur.shout)
               px == Direct(cur.rows, e.x) IN
           Same(Okd(e, e.out = [s \in DOMAIN px |-> d[s] * px[s]], "diagonal") \cup If(e.intact, "input-changed")
                \cup If(e.obs = cur.rows, "operator-changed") \cup If(e.unit = e.want, "diagonal-unit"))
      [] e.op = "intersects" ->
           LET np == NPix(cur.shin)
               pix == e.xy[1] - 1 + (e.xy[2] - 1) * cur.shin[Len(cur.shin)]
               sees == [s \in DOMAIN cur.rows |-> \E k \in DOMAIN cur.rows[s] : cur.rows[s][k][1] = pix]
               nd == cur.shout[1]
               ns == cur.shout[2]
               want == IF e.axis = "none" THEN <<\E s \in DOMAIN sees : sees[s]>>
                       ELSE IF e.axis = "0" THEN [s \in 1..ns |-> \E d \in 1..nd : sees[(d - 1) * ns + s]]
                       ELSE [d \in 1..nd |-> \E s \in 1..ns : sees[(d - 1) * ns + s]]
           IN Same(Okd(e, e.out = want, "intersects"))
      [] e.op = "units" ->      \* exponents of the units K and Jy
           Same(Okd(e, e.out = IF e.unit = <<0, 0>> THEN e.unit ELSE <<e.unit[1] + e.sign * e.p[1], e.unit[2] + e.sign * e.p[2]>>, "unit")
                \cup If(e.attr, "attributes"))
      \* on-the-fly operators: cur.cached, cur.mats
      [] e.op = "group" -> [next |-> [cached |-> <<>>, mats |-> e.mats, np |-> e.np], bad |-> {}]
      [] e.op = "use" ->
           LET m == cur.mats[e.id] IN
           [next |-> [cur EXCEPT !.cached = After(@, e.id, e.fails)],
            bad |-> If(e.st = IF Outcome(cur.cached, e.id, e.fails) = "ok" THEN "ok" ELSE "exc:RuntimeError", "outcome")
                    \cup If(e.calls = Calls(cur.cached, e.id), "calls") \cup If(e.free, "place")
                    \cup (IF e.st # "ok" THEN {} ELSE
                          If(e.out = IF e.dir = "direct" THEN Direct(m, e.x) ELSE Back(m, cur.np, e.x), "on-the-fly"))]
      [] e.op = "column" ->     \* a column of all the operators
           LET all == [i \in DOMAIN cur.mats |-> cur.mats[i]]
               n == Len(all[1])
           IN [next |-> [cur EXCEPT !.cached = <<e.last>>],
               bad |-> Okd(e, e.out = IF e.dir = "direct" THEN Flatten([i \in DOMAIN all |-> Direct(all[i], e.x)])
                                      ELSE [p \in 1..cur.np |-> SumSeq([i \in DOMAIN all |->
                                              Back(all[i], cur.np, SubSeq(e.x, (i - 1) * n + 1, i * n))[p]])], "column")]
      [] OTHER -> [next |-> cur, bad |-> {"unknown-event"}]
TraceInit == h \in 1..Len(Histories) /\ l = 1 /\ cur = <<>>
TraceNext ==
    /\ l <= Len(Histories[h])
    /\ LET v == Verdict(Histories[h][l]) IN
       /\ cur' = v.next
       /\ IF v.bad = {} THEN l' = l + 1
          ELSE /\ l' = Len(Histories[h]) + 1
               /\ PrintT("@@" \o ToJson([h |-> h, l |-> l, bad |-> v.bad]))
    /\ h' = h
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
