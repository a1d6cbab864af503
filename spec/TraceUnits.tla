----------------------------- MODULE TraceUnits -----------------------------
(* Validation of recorded histories of quantities: a register is                *)
(*  [u: unit, sg: signs, L: logarithms, shape, loc: local units]                *)
(* a local unit is [n, dir: "" | "leftward" | "rightward", L, toks].            *)
EXTENDS Units, Json, IOUtils
Histories == JsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, rs
vars == <<h, l, rs>>

TOL == 60
Put(s, i, m) == IF i <= Len(s) THEN [s EXCEPT ![i] = m] ELSE Append(s, m)
If(c, name) == IF c THEN {} ELSE {name}

Size(shape) == ProdSeq(shape)
(* 1-based position of element i along the first and the last axis *)
FirstPos(shape, i) == ((i - 1) \div (Size(shape) \div shape[1])) + 1
LastPos(shape, i) == ((i - 1) % shape[Len(shape)]) + 1
LocL(d, shape, i) ==
    IF d.dir = "" THEN d.L[1]
    ELSE IF d.dir = "leftward" THEN d.L[LastPos(shape, i)] ELSE d.L[FirstPos(shape, i)]
LocFor(r, i) ==
    [n \in {r.loc[j].n : j \in DOMAIN r.loc} |->
        LET d == r.loc[CHOOSE j \in DOMAIN r.loc : r.loc[j].n = n]
        IN [L |-> LocL(d, r.shape, i), toks |-> d.toks]]
Elems(r) == 1..Size(r.shape)

Near1(s, t, tol) == DOMAIN s = DOMAIN t /\ \A i \in DOMAIN s : Near(s[i], t[i], tol)
SameLoc(a, b) ==
    /\ Len(a) = Len(b)
    /\ \A i \in DOMAIN a : \E j \in DOMAIN b :
          /\ a[i].n = b[j].n /\ a[i].dir = b[j].dir
          /\ Near1(a[i].L, b[j].L, TOL)
          /\ KnownTokens(b[j].toks) /\ Parse(a[i].toks) = Parse(b[j].toks)
RegBad(r, p, k) ==
    LET w(name) == name \o ToString(k) IN
    IF ~KnownTokens(p.toks) THEN {w("unit")}
    ELSE If(Parse(p.toks) = r.u, w("unit")) \cup If(Canonical(p.toks), w("printed"))
         \cup If(p.shape = r.shape, w("shape")) \cup If(p.sg = r.sg, w("sign"))
         \cup If(Near1(r.L, p.L, TOL), w("magnitude"))
         \cup If(SameLoc(r.loc, p.loc), w("derived"))
PostBad(s, post) ==
    IF Len(post) # Len(s) THEN {"registers"}
    ELSE UNION {RegBad(s[i], post[i], i) : i \in DOMAIN s}

Map2(a, b, F(_, _)) ==      \* equal shapes or one of them is a scalar
    LET n == Max2(Len(a), Len(b)) IN
    [i \in 1..n |-> F(IF Len(a) = 1 THEN a[1] ELSE a[i], IF Len(b) = 1 THEN b[1] ELSE b[i])]
Binary(x, y, inv) ==
    [u |-> IF inv THEN DivU(x.u, y.u) ELSE MulU(x.u, y.u),
     sg |-> Map2(x.sg, y.sg, LAMBDA a, b : a * b),
     L |-> Map2(x.L, y.L, LAMBDA a, b : IF inv THEN a - b ELSE a + b),
     shape |-> IF x.shape = <<>> THEN y.shape ELSE x.shape,
     loc |-> IF x.loc # <<>> THEN x.loc ELSE y.loc]
Plain(e) == [u |-> One, sg |-> e.sg, L |-> e.L, shape |-> e.shape, loc |-> <<>>]
PowSign(s, k) == IF k % 24 = 0 THEN 1 ELSE s
PowR(x, k) ==
    [x EXCEPT !.u = PowU(@, k), !.sg = [i \in DOMAIN @ |-> PowSign(@[i], k)],
              !.L = [i \in DOMAIN @ |-> Twelfths(k, @[i])]]

(* conversion *)
Convertible(r, v) ==
    r.u = One \/ v = One \/ Compatible(r.u, v, LocFor(r, 1))
Converted(r, v) ==
    IF r.u = One \/ v = One THEN [r EXCEPT !.u = v]
    ELSE [r EXCEPT !.u = v,
                   !.L = [i \in DOMAIN @ |-> @[i] + LFactor(r.u, LocFor(r, i))
                                                  - LFactor(v, LocFor(r, i))]]
InSI(r) ==
    IF r.u = One THEN r
    ELSE [r EXCEPT !.u = BaseU(r.u, LocFor(r, 1)),
                   !.L = [i \in DOMAIN @ |-> @[i] + LFactor(r.u, LocFor(r, i))]]

(* selection: key[d] = [int, p] with the 0-based positions along axis d *)
RECURSIVE PickIdx(_, _)
PickIdx(shape, key) ==     \* 0-based flat positions, row-major
    IF shape = <<>> THEN <<0>>
    ELSE LET rest == PickIdx(Tail(shape), Tail(key))
             size == ProdSeq(Tail(shape))
         IN Flatten([i \in DOMAIN Head(key).p |->
                       [j \in DOMAIN rest |-> Head(key).p[i] * size + rest[j]]])
RECURSIVE PickShape(_)
PickShape(key) ==
    IF key = <<>> THEN <<>>
    ELSE (IF Head(key).int THEN <<>> ELSE <<Len(Head(key).p)>>) \o PickShape(Tail(key))
PickLoc(d, key) ==
    IF d.dir = "" THEN d
    ELSE LET k == IF d.dir = "leftward" THEN key[Len(key)] ELSE key[1] IN
         [d EXCEPT !.L = [i \in DOMAIN k.p |-> d.L[k.p[i] + 1]],
                   !.dir = IF k.int THEN "" ELSE @]
Picked(r, key) ==
    LET idx == PickIdx(r.shape, key) IN
    [r EXCEPT !.sg = SeqTake(r.sg, idx), !.L = SeqTake(r.L, idx), !.shape = PickShape(key),
              !.loc = [i \in DOMAIN @ |-> PickLoc(@[i], key)]]

Res(s, e, s1) ==
    IF e.status = "ok" THEN [next |-> s1, bad |-> PostBad(s1, e.post)]
    ELSE [next |-> s, bad |-> {e.op \o "-raises"}]

Verdict(s, e) ==
    CASE e.op = "create" ->
           Res(s, e, Put(s, e.dst, [u |-> Parse(e.toks), sg |-> e.sg, L |-> e.L,
                                    shape |-> e.shape, loc |-> e.loc]))
      [] e.op \in {"mul", "div"} ->
           Res(s, e, Put(s, e.dst, Binary(s[e.a], s[e.b], e.op = "div")))
      [] e.op = "plain" ->      \* with a number or an array: x * c, x / c, c * x, c / x
           Res(s, e, Put(s, e.dst,
               IF e.how = "rdiv" THEN Binary(Plain(e), s[e.a], TRUE)
               ELSE Binary(s[e.a], Plain(e), e.how = "div")))
      [] e.op = "pow" -> Res(s, e, Put(s, e.dst, PowR(s[e.a], e.k)))
      [] e.op = "neg" -> Res(s, e, Put(s, e.dst, [s[e.a] EXCEPT !.sg = [i \in DOMAIN @ |-> -@[i]]]))
      [] e.op = "same" -> Res(s, e, Put(s, e.dst, s[e.a]))
      [] e.op = "abs" -> Res(s, e, Put(s, e.dst, [s[e.a] EXCEPT !.sg = [i \in DOMAIN @ |-> 1]]))
      [] e.op = "setunit" -> Res(s, e, [s EXCEPT ![e.a].u = Parse(e.toks)])
      [] e.op = "SI" -> Res(s, e, Put(s, e.dst, InSI(s[e.a])))
      [] e.op = "index" -> Res(s, e, Put(s, e.dst, Picked(s[e.a], e.key)))
      [] e.op \in {"tounit", "inunit"} ->
           LET v == Parse(e.toks)
               dst == IF e.op = "inunit" THEN e.a ELSE e.dst
           IN IF Convertible(s[e.a], v) THEN Res(s, e, Put(s, dst, Converted(s[e.a], v)))
              ELSE [next |-> s, bad |-> If(e.status = "exc:UnitError", "not-refused")
                                        \cup PostBad(s, e.post)]
      [] OTHER -> [next |-> s, bad |-> {"unknown-event"}]

TraceInit == h \in 1..Len(Histories) /\ l = 1 /\ rs = <<>>
TraceNext ==
    /\ l <= Len(Histories[h])
    /\ LET v == Verdict(rs, Histories[h][l]) IN
       /\ rs' = v.next
       /\ IF v.bad = {} THEN l' = l + 1
          ELSE /\ l' = Len(Histories[h]) + 1
               /\ PrintT("@@" \o ToJson([h |-> h, l |-> l, bad |-> v.bad]))
    /\ h' = h
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
