-------------------------- MODULE TraceQuantities --------------------------
(* Validation of recorded histories of NumPy functions applied to quantities.    *)
(* The registers designate cells (several registers may be the same object);     *)
(* a cell is [u: unit, sg, L, F: signs, logarithms and values, shape].           *)
EXTENDS Quantities, Json, IOUtils
Histories == JsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, regs, cells
vars == <<h, l, regs, cells>>

TOL == 60
BIG == -999999004       \* no fixed point value
If(c, name) == IF c THEN {} ELSE {name}
Size(x) == ProdSeq(x.shape)

(* local definitions carried by the quantities *)
LocOf(e) == [n \in {e.loc[j].n : j \in DOMAIN e.loc} |->
               LET d == e.loc[CHOOSE j \in DOMAIN e.loc : e.loc[j].n = n]
               IN [L |-> d.L, toks |-> d.toks]]
SameValues(a, b) ==
    /\ DOMAIN a.sg = DOMAIN b.sg
    /\ \A i \in DOMAIN a.sg :
          IF a.F[i] # BIG /\ b.F[i] # BIG THEN Near(a.F[i], b.F[i], 1)
          ELSE a.sg[i] = b.sg[i] /\ (a.sg[i] \in {1, -1} => Near(a.L[i], b.L[i], TOL))
UnitIs(toks, u) == KnownTokens(toks) /\ Parse(toks) = u
CellBad(c, p, w) ==
    If(UnitIs(p.toks, c.u), w \o "unit") \cup If(p.shape = c.shape, w \o "shape")
    \cup If(SameValues(c, p), w \o "magnitude")
PostBad(rg, cs, post) ==
    IF Len(post) # Len(rg) THEN {"registers"}
    ELSE UNION {CellBad(cs[rg[i]], post[i], "register-") : i \in DOMAIN post}

(* an operand: a register or an array given with the event *)
Operand(rg, cs, a) ==
    IF a.reg > 0 THEN cs[rg[a.reg]]
    ELSE [u |-> Parse(a.toks), sg |-> a.sg, L |-> a.L, F |-> a.F, shape |-> a.shape]
(* the homogenised operand computed by the recorder is the right one *)
ConvBad(x, c, dl, i) ==
    LET w == "recorder-" \o ToString(i) IN
    IF c.sg # x.sg THEN {w}
    ELSE If(\A j \in DOMAIN x.sg : x.sg[j] \in {1, -1} => Near(c.L[j], x.L[j] + dl, TOL), w)

SetCell(cs, i, c) == IF i <= Len(cs) THEN [cs EXCEPT ![i] = c] ELSE Append(cs, c)
(* put cell c in register r *)
Bind(rg, r, i) == IF r <= Len(rg) THEN [rg EXCEPT ![r] = i] ELSE Append(rg, i)
FromPlain(u, y) == [u |-> u, sg |-> y.sg, L |-> y.L, F |-> y.F, shape |-> y.shape]

Apply(rg, cs, e) ==
    LET args == [i \in DOMAIN e.args |-> Operand(rg, cs, e.args[i])]
        us == [i \in DOMAIN args |-> args[i].u]
        loc == LocOf(e)
        refused == Refused(e.name, us, loc)
        n == IF e.ref = <<>> \/ Size(e.ref[1]) = 0 THEN 1 ELSE Size(args[1]) \div Size(e.ref[1])
        units == [j \in DOMAIN e.ref |-> OutU(e.name, us, j, e.k, n)]
        known == e.name \in RuleNames
        conv == UNION {ConvBad(args[i], e.conv[i], ConvL(e.name, us, i, loc), i) : i \in DOMAIN args}
        results == UNION {CellBad(FromPlain(units[j], e.ref[j]), e.res[j], "result-") : j \in DOMAIN e.ref}
        news == [j \in DOMAIN e.ref |-> FromPlain(units[j], e.ref[j])]
        new == news[1]
        (* in place: the cell of register e.out; otherwise a new cell in register e.dst *)
        rcs == IF e.out > 0 THEN [cs EXCEPT ![rg[e.out]] = new]
               ELSE IF e.dst > 0 THEN Append(cs, news[e.pick]) ELSE cs
        rrg == IF e.out > 0 \/ e.dst = 0 THEN rg ELSE Bind(rg, e.dst, Len(cs) + 1)
    IN IF ~known THEN [rg |-> rg, cs |-> cs, bad |-> {"no-rule"}]
       ELSE IF refused THEN
            [rg |-> rg, cs |-> cs,
             bad |-> If(e.status = "exc:UnitError", "not-refused") \cup PostBad(rg, cs, e.post)]
       ELSE IF e.status # "ok" THEN [rg |-> rg, cs |-> cs, bad |-> {"raises"}]
       ELSE IF conv # {} THEN [rg |-> rg, cs |-> cs, bad |-> conv]
       ELSE IF Len(e.res) # Len(e.ref) THEN [rg |-> rg, cs |-> cs, bad |-> {"results"}]
       ELSE [rg |-> rrg, cs |-> rcs, bad |-> results \cup PostBad(rrg, rcs, e.post)
                    \cup If(~e.wantsloc \/ e.hasloc, "derived-units-lost")
                    \cup If(e.sameout, "out-not-returned")]

Verdict(rg, cs, e) ==
    CASE e.op = "create" ->
           LET rg2 == Bind(rg, e.dst, Len(cs) + 1)
               cs2 == Append(cs, [u |-> Parse(e.toks), sg |-> e.sg, L |-> e.L, F |-> e.F,
                                  shape |-> e.shape])
           IN [rg |-> rg2, cs |-> cs2, bad |-> PostBad(rg2, cs2, e.post)]
      [] e.op = "alias" ->
           LET rg2 == Bind(rg, e.dst, rg[e.a]) IN
           [rg |-> rg2, cs |-> cs, bad |-> PostBad(rg2, cs, e.post)]
      [] e.op = "apply" -> Apply(rg, cs, e)
      [] OTHER -> [rg |-> rg, cs |-> cs, bad |-> {"unknown-event"}]

TraceInit == h \in 1..Len(Histories) /\ l = 1 /\ regs = <<>> /\ cells = <<>>
TraceNext ==
    /\ l <= Len(Histories[h])
    /\ LET v == Verdict(regs, cells, Histories[h][l]) IN
       /\ regs' = v.rg /\ cells' = v.cs
       /\ IF v.bad = {} THEN l' = l + 1
          ELSE /\ l' = Len(Histories[h]) + 1
               /\ PrintT("@@" \o ToJson([h |-> h, l |-> l, bad |-> v.bad]))
    /\ h' = h
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
