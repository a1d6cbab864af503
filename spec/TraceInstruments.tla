-------------------------- MODULE TraceInstruments --------------------------
(* Recorded histories of instruments, imagers, beams and mask policies.              *)
EXTENDS Instruments, Json, IOUtils
Histories == JsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, w, p
vars == <<h, l, w, p>>
If(ok, name) == IF ok THEN {} ELSE {name}
Res(e, ok) == IF e.st # "ok" THEN {"raises"} ELSE If(ok, e.op)
Of(e) == w[e.i]
(* the instruments and the policy after the event *)
After(e) ==
    CASE e.op = "create" -> Append(w, [name |-> e.name, ids |-> e.ids, gain |-> e.ids])
      [] e.op = "select" -> IF Refused(e.sel, Len(Of(e).ids)) THEN w ELSE Append(w, Select(Of(e), e.sel))
      [] e.op = "split" -> w \o Groups(Of(e), e.n)
      [] e.op = "iterate" -> w \o Singles(Of(e))
      [] e.op = "assign" -> [w EXCEPT ![e.i].gain = e.gain]
      [] e.op = "rename" -> [w EXCEPT ![e.i].name = e.name]
      [] OTHER -> w
PolicyAfter(e) ==
    CASE e.op = "policy" -> IF PolicyError(e.flags, e.values) = "" THEN [d |-> e.d, flags |-> e.flags, values |-> e.values] ELSE p
      [] e.op = "setpolicy" -> [p EXCEPT !.values = [k \in DOMAIN p.flags |-> IF p.flags[k].name = e.flag THEN e.value ELSE p.values[k]]]
      [] OTHER -> p
Events == {"create", "select", "split", "iterate", "assign", "rename"}
Verdict(e) ==
    (CASE e.op = "select" -> IF Refused(e.sel, Len(Of(e).ids)) THEN If(e.st = "exc:IndexError", "refused") ELSE Res(e, TRUE)
       [] e.op \in Events -> Res(e, TRUE)
       [] e.op = "pack" -> Res(e, e.obs = Pack(Of(e), e.v))
       [] e.op = "unpack" -> Res(e, e.obs = Unpack(Of(e), e.v, e.n, e.missing))
       [] e.op = "imager" -> Res(e, /\ e.image = [k \in DOMAIN e.x |-> e.x[k] * e.factor]
                                    /\ e.object = e.x)
       [] e.op = "beam" -> Res(e, /\ e.shape = e.expected
                                  /\ Len(e.obs) = Len(e.k) /\ \A i \in DOMAIN e.k : Near(e.obs[i], BeamValue(e.k[i]), 12)
                                  /\ Near(e.solid, (e.sigma * e.sigma * 6434) \div 64, 2 + ((e.sigma * e.sigma) \div 16)))
       [] e.op = "uniform" -> Res(e, e.shape = e.expected /\ (\A i \in DOMAIN e.obs : e.obs[i] = 1) /\ Near(e.solid, 6434, 1))
       [] e.op = "healpix" -> Res(e, /\ Len(e.obs) = 12 * e.nside * e.nside
                                     /\ \A i \in 1..(Len(e.obs) - 1) : IF e.backward THEN e.obs[i] <= e.obs[i + 1] ELSE e.obs[i] >= e.obs[i + 1]
                                     /\ \A i \in DOMAIN e.obs : e.obs[i] = e.opposite[(Len(e.obs) + 1) - i])
       [] e.op = "policy" -> IF PolicyError(e.flags, e.values) # "" THEN If(e.st = PolicyError(e.flags, e.values), "refused") ELSE Res(e, TRUE)
       [] e.op = "setpolicy" -> Res(e, TRUE)
       [] e.op = "refused" -> If(e.st = e.error, e.name)
       [] OTHER -> {"unknown-event"})
    \cup (IF e.op \in Events THEN If(e.world = After(e), "world") ELSE {})
    \cup (IF e.op \in {"policy", "setpolicy"} /\ PolicyAfter(e) # << >>
          THEN LET q == PolicyAfter(e) IN If(e.array = Converted(q.flags, q.values), "array") \cup If(e.text = Text(q.d, q.flags, q.values), "text")
          ELSE {})
TraceInit == h \in 1..Len(Histories) /\ l = 1 /\ w = << >> /\ p = << >>
TraceNext ==
    /\ l <= Len(Histories[h])
    /\ LET bad == Verdict(Histories[h][l]) IN
       IF bad = {} THEN l' = l + 1 /\ w' = After(Histories[h][l]) /\ p' = PolicyAfter(Histories[h][l])
       ELSE /\ l' = Len(Histories[h]) + 1 /\ w' = w /\ p' = p
            /\ PrintT("@@" \o ToJson([h |-> h, l |-> l, bad |-> bad]))
    /\ h' = h
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
