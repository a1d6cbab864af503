--------------------------- MODULE TraceDatatypes ---------------------------
(* Validation of recorded histories of maps and time-ordered data.              *)
EXTENDS Datatypes, Json, IOUtils
Histories == JsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, rs
vars == <<h, l, rs>>

If(c, name) == IF c THEN {} ELSE {name}
Put(s, i, m) == IF i <= Len(s) THEN [s EXCEPT ![i] = m] ELSE Append(s, m)
(* an absent mask and a mask without any masked sample are the same, except where the
   property says otherwise *)
NoMask(c) == c = <<>> \/ (Len(c) = 1 /\ \A i \in DOMAIN c[1] : c[1][i] = 0)
RegBad(r, p) ==
    If(p.cls = r.cls, "class") \cup If(p.shape = r.shape, "shape") \cup If(p.v = r.v, "values")
    \cup If(p.cov = r.cov, "coverage") \cup If(p.err = r.err, "error")
    \cup If(p.mask = r.mask \/ (NoMask(r.mask) /\ NoMask(p.mask)), "mask")
    \cup If(p.hdr = r.hdr, "header") \cup If(p.unit = r.unit, "unit")
    \cup If(p.org = r.org, "origin") \cup If(p.du = r.du, "derived-units")
PostBad(s, post) ==
    IF Len(post) # Len(s) THEN {"registers"}
    ELSE UNION {RegBad(s[i], post[i]) : i \in DOMAIN s}
Ok(s, e, s1) ==
    IF e.status = "ok" THEN [next |-> s1, bad |-> PostBad(s1, e.post)]
    ELSE [next |-> s, bad |-> {e.op \o "-raises"}]
Refuse(s, e) ==
    [next |-> s, bad |-> If(e.status = "exc:ValueError", "not-refused") \cup PostBad(s, e.post)]

Given(x, old) == IF x = <<>> THEN old ELSE x
SetMask(r, e) ==
    CASE e.kind = "none" -> [r EXCEPT !.mask = <<>>]
      [] e.kind = "scalar" -> [r EXCEPT !.mask = <<Const(Size(r.shape), e.value)>>]
      [] OTHER -> [r EXCEPT !.mask = <<e.m>>]
UnitAdd(u, w) == [i \in DOMAIN u |-> u[i] + w[i]]
Arith(r, e) ==
    CASE e.f = "add" -> MapV(r, LAMBDA x : x + e.c)
      [] e.f = "sub" -> MapV(r, LAMBDA x : x - e.c)
      [] e.f = "mul" -> MapV(r, LAMBDA x : x * e.c)
      [] e.f = "neg" -> MapV(r, LAMBDA x : -x)
      [] e.f = "abs" -> MapV(r, LAMBDA x : Abs(x))
      [] e.f = "square" -> [MapV(r, LAMBDA x : x * x) EXCEPT !.unit = 2 * @]
      [] OTHER -> r
Binary(x, y, f) ==
    [x EXCEPT !.v = [i \in DOMAIN @ |-> IF f = "add" THEN @[i] + y.v[i]
                                        ELSE IF f = "sub" THEN @[i] - y.v[i]
                                        ELSE IF f = "max" THEN Max2(@[i], y.v[i])
                                        ELSE Min2(@[i], y.v[i])]]
ReduceBad(r, e) ==
    LET gs == Groups(r.shape, e.axis)
        o == e.res
        n(g) == Len(SelectSeq(g, LAMBDA p : ~Masked(r, p)))
    IN If(o.shape = ReducedShape(r.shape, e.axis, e.keep), "reduced-shape")
       \cup If(o.unit = r.unit, "reduced-unit")
       \cup If(o.cls = r.cls, "reduced-class")
       \cup (IF Len(o.v60) # Len(gs) THEN {"reduced-size"}
             ELSE If(\A i \in DOMAIN gs : AllMasked(r, gs[i]) \/ o.v60[i] = Reduced(r, gs[i], e.f),
                     "reduced-value"))
       \cup If(IF \E i \in DOMAIN gs : AllMasked(r, gs[i])
               THEN o.mask = << [i \in DOMAIN gs |-> IF AllMasked(r, gs[i]) THEN 1 ELSE 0] >>
               ELSE NoMask(o.mask), "reduced-mask")

Verdict(s, e) ==
    CASE e.op = "create" ->
           Ok(s, e, Put(s, e.dst, [cls |-> e.cls, shape |-> e.shape, v |-> e.v, cov |-> e.cov,
                 err |-> e.err, mask |-> e.mask, hdr |-> e.hdr, unit |-> e.unit, org |-> e.org,
                 du |-> e.du]))
      [] e.op = "construct" ->     \* from another array, some attributes being given
           LET r == ToClass(s[e.a], e.cls) IN
           Ok(s, e, Put(s, e.dst, [r EXCEPT !.cov = Given(e.cov, @), !.err = Given(e.err, @),
                 !.mask = Given(e.mask, @), !.org = IF e.org = "" THEN @ ELSE e.org,
                 !.unit = IF e.newunit THEN e.unit ELSE @]))
      [] e.op = "same" -> Ok(s, e, Put(s, e.dst, s[e.a]))
      [] e.op = "select" -> Ok(s, e, Put(s, e.dst, Select(s[e.a], e.key)))
      [] e.op = "pick" ->          \* 1-d positions: boolean masks, rearrangements
           Ok(s, e, Put(s, e.dst, Picked(s[e.a], e.idx, e.shape)))
      [] e.op = "parts" ->         \* several results
           IF e.status # "ok" THEN [next |-> s, bad |-> {"parts-raises"}]
           ELSE IF Len(e.res) # Len(e.parts) THEN [next |-> s, bad |-> {"number-of-parts"}]
           ELSE [next |-> s, bad |-> PostBad(s, e.post) \cup UNION {
                    RegBad(Picked(s[e.a], e.parts[i].idx, e.parts[i].shape), e.res[i]) : i \in DOMAIN e.parts}]
      [] e.op = "reshape" ->
           IF e.dims # <<>> /\ Size(FullDims(e.dims, Size(s[e.a].shape))) # Size(s[e.a].shape)
           THEN Refuse(s, e)
           ELSE Ok(s, e, Put(s, e.dst, Reshape(s[e.a], e.dims, e.order)))
      [] e.op = "arith" -> Ok(s, e, Put(s, e.dst, Arith(s[e.a], e)))
      [] e.op = "binary" -> Ok(s, e, Put(s, e.dst, Binary(s[e.a], s[e.b], e.f)))
      [] e.op = "setmask" ->
           IF e.kind = "bad" THEN Refuse(s, e) ELSE Ok(s, e, [s EXCEPT ![e.a] = SetMask(@, e)])
      [] e.op = "mutate" ->        \* of a copy: nothing else changes
           Ok(s, e, [s EXCEPT ![e.a] =
              CASE e.what = "values" -> [@ EXCEPT !.v[e.pos] = e.value]
                [] e.what = "coverage" -> [@ EXCEPT !.cov[1][e.pos] = e.value]
                [] e.what = "error" -> [@ EXCEPT !.err[1][e.pos] = e.value]
                [] e.what = "mask" -> [@ EXCEPT !.mask[1][e.pos] = e.value]
                [] OTHER -> [@ EXCEPT !.hdr = e.value]])
      [] e.op = "reduce" ->
           IF e.status # "ok" THEN [next |-> s, bad |-> {"reduce-raises"}]
           ELSE [next |-> s, bad |-> ReduceBad(s[e.a], e) \cup PostBad(s, e.post)]
      [] OTHER -> [next |-> s, bad |-> {"unknown-event"}]

TraceInit == h \in 1..Len(Histories) /\ l = 1 /\ rs = <<>>
TraceNext ==
    /\ l <= Len(Histories[h])
    /\ LET v == Verdict(rs, Histories[h][l]) IN
       /\ rs' = v.next
       /\ IF v.bad = {} THEN l' = l + 1
          ELSE /\ l' = Len(Histories[h]) + 1
               /\ PrintT("@@" \o ToJson([h |-> h, l |-> l, bad |-> v.bad]))
    /\ h' = h
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
