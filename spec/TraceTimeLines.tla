---------------------------- MODULE TraceTimeLines ----------------------------
(* Recorded applications of operators to an array.                                *)
EXTENDS TimeLines, Json, IOUtils
Histories == JsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, cur
vars == <<h, l, cur>>
If(ok, name) == IF ok THEN {} ELSE {name}
Verdict(e) ==
    CASE e.op = "start" -> [next |-> [a |-> [shape |-> e.shape, data |-> e.data], z |-> 0], bad |-> {}]
      [] e.op = "apply" ->
           LET z == cur.z + e.z
               a == Apply(IF e.t THEN Transpose(e.tree) ELSE e.tree, Up(cur.a, e.z), z)
           IN IF e.st # "ok" THEN [next |-> cur, bad |-> If(e.may, "raises")]
              ELSE [next |-> [a |-> a, z |-> z],
                    bad |-> If(e.shape = a.shape, "shape") \cup If(e.obs = a.data, e.name)
                            \cup If(e.intact, "input-changed") \cup If(e.buffer, "buffer") \cup If(e.kept, "attributes")]
      [] e.op = "refused" -> [next |-> cur, bad |-> If(e.st = e.want, e.name)]
      [] OTHER -> [next |-> cur, bad |-> {"unknown-event"}]
TraceInit == h \in 1..Len(Histories) /\ l = 1 /\ cur = <<>>
TraceNext ==
    /\ l <= Len(Histories[h])
    /\ LET v == Verdict(Histories[h][l]) IN
       /\ cur' = v.next
       /\ IF v.bad = {} THEN l' = l + 1
          ELSE /\ l' = Len(Histories[h]) + 1
               /\ PrintT("@@" \o ToJson([h |-> h, l |-> l, bad |-> v.bad]))
    /\ h' = h
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
