---------------------------- MODULE TraceSparse ----------------------------
(* Validation of recorded histories of sparse matrices and operators. *)
EXTENDS Sparse, Json, IOUtils

Histories == JsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, ms
vars == <<h, l, ms>>

Put(s, i, m) == IF i <= Len(s) THEN [s EXCEPT ![i] = m] ELSE Append(s, m)
If(c, name) == IF c THEN {} ELSE {name}
ok(e) == e.status = "ok"

(* the whole observable state after the operation: the dense form of the live
   matrices *)
PostBad(s, post) ==
    UNION {If(post[i].d = Dense(s[post[i].r]), "matrix" \o ToString(post[i].r))
           : i \in DOMAIN post}

(* how an array of booleans or numbers is updated by an operation *)
Reduce(op, old, new) ==
    [i \in DOMAIN new |->
       CASE op = "set" -> new[i]
         [] op = "iadd" -> old[i] + new[i]
         [] op = "iand" -> old[i] * new[i]
         [] op = "imul" -> old[i] * new[i]
         [] op = "ior" -> Max2(old[i], new[i])]

Verdict(s, e) ==
    IF ~ok(e) THEN [next |-> s, bad |-> {e.op \o "-raises"}]
    ELSE
    CASE e.op = "create" ->
          LET s1 == Put(s, e.dst, e.m)
          IN [next |-> s1, bad |-> If(WellFormedMatrix(e.m), "generator") \cup PostBad(s1, e.post)]
      [] e.op = "scale" ->
          LET s1 == Put(s, e.dst, Scaled(s[e.src], e.c))
          IN [next |-> s1, bad |-> PostBad(s1, e.post)]
      [] e.op = "copy" ->
          LET s1 == Put(s, e.dst, s[e.src])
          IN [next |-> s1, bad |-> PostBad(s1, e.post)]
      [] e.op = "setentry" ->
          LET s1 == [s EXCEPT ![e.src].ent[e.a][e.b].v = e.v]
          IN [next |-> s1, bad |-> PostBad(s1, e.post)]
      [] e.op = "transpose" ->
          LET s1 == Put(s, e.dst, Transposed(s[e.src]))
          IN [next |-> s1, bad |-> PostBad(s1, e.post)]
      [] e.op = "restrict" ->
          LET s1 == Put(s, e.dst, Restricted(s[e.src], e.mask))
          IN [next |-> s1, bad |-> PostBad(s1, e.post) \cup If(e.shapes, "shapes")]
      [] e.op = "corestrict" ->
          LET s1 == Put(s, e.dst, Corestricted(s[e.src], e.mask))
          IN [next |-> s1, bad |-> PostBad(s1, e.post) \cup If(e.shapes, "shapes")]
      [] e.op = "apply" ->      \* y = [y +] M x
          LET m == IF e.tr THEN Transposed(s[e.src]) ELSE s[e.src]
              y == MatMat(m, e.x)
              expected == IF e.iadd THEN AddMat(e.out0, y) ELSE y
          IN [next |-> s,
              bad |-> If(\A i \in DOMAIN e.res : e.res[i] = expected, "product")
                 \cup If(e.after = e.x, "input-changed")
                 \cup If(e.shape, "output-shape")
                 \cup PostBad(s, e.post)]
      [] e.op = "gram" ->
          [next |-> s, bad |-> If(e.res = <<KronId(Gram(s[e.src]), e.e)>>, "gram") \cup PostBad(s, e.post)]
      [] e.op = "kernel" ->
          [next |-> s,
           bad |-> If(e.res = Reduce(e.red, e.out0, InKernel(s[e.src])), "kernel")
              \cup PostBad(s, e.post)]
      [] e.op = "pT1" ->
          [next |-> s,
           bad |-> If(e.res = Reduce(e.red, e.out0, PT1(s[e.src], e.rot2d)), "pT1")
              \cup PostBad(s, e.post)]
      [] e.op = "pTx" ->
          [next |-> s,
           bad |-> If(e.res = Reduce(e.red, e.out0, PTx(s[e.src], e.x)), "pTx")
              \cup If(e.cov = Reduce(e.red, e.cov0, PT1(s[e.src], FALSE)), "pTx-coverage")
              \cup If(e.after = e.x, "input-changed")
              \cup PostBad(s, e.post)]

TraceInit == h \in 1..Len(Histories) /\ l = 1 /\ ms = <<>>
TraceNext ==
    /\ l <= Len(Histories[h])
    /\ LET v == Verdict(ms, Histories[h][l]) IN
       /\ ms' = v.next
       /\ IF v.bad = {} THEN l' = l + 1
          ELSE /\ l' = Len(Histories[h]) + 1
               /\ PrintT("@@" \o ToJson([h |-> h, l |-> l, bad |-> v.bad]))
    /\ h' = h
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
