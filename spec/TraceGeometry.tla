--------------------------- MODULE TraceGeometry ---------------------------
(* Recorded geometric objects, layouts and integrations over polygons.              *)
EXTENDS Geometry, Json, IOUtils
Histories == JsonDeserialize(IOEnv.TRACE)
VARIABLES h, l
vars == <<h, l>>
If(ok, name) == IF ok THEN {} ELSE {name}
Res(e, ok) == IF e.st # "ok" THEN {"raises"} ELSE If(ok, e.op)
RowOf(e, i) == (e.index[i] \div e.g.nc) + 1
ColOf(e, i) == (e.index[i] % e.g.nc) + 1
Verdict(e) ==
    CASE e.op = "integrate" ->
           Res(e, /\ Len(e.obs) = Len(e.polygons)
                  /\ \A i \in DOMAIN e.polygons :
                       LET p == Scale(e.polygons[i], e.unit)
                           r == Row(p, e.nr, e.nc)
                       IN Len(e.obs[i]) = Len(r) /\ \A j \in DOMAIN r : Near(e.obs[i][j], r[j], 6))
           \cup (IF e.st = "ok" THEN If(e.outside = (\E i \in DOMAIN e.polygons : Beyond(Scale(e.polygons[i], e.unit), e.nr, e.nc)), "outside")
                                      \cup If(e.shape, "shape") ELSE {})
      [] e.op = "grid" ->
           Res(e, Len(e.obs) = e.g.nr /\ \A i \in 1..e.g.nr : Len(e.obs[i]) = e.g.nc
                  /\ \A j \in 1..e.g.nc : e.obs[i][j] = Node(e.g, i, j))
      [] e.op = "squares" ->
           Res(e, Len(e.obs) = e.g.nr /\ \A i \in 1..e.g.nr : Len(e.obs[i]) = e.g.nc
                  /\ \A j \in 1..e.g.nc : e.obs[i][j] = Square(e.g, i, j))
      [] e.op = "layout" ->
           IF e.st # "ok" THEN {"raises"} ELSE
           LET n == Len(e.index) IN
           If(e.unit = e.expected_unit, "unit")
           \cup If(Len(e.centers) = n /\ \A i \in 1..n : e.centers[i] = Node(e.g, RowOf(e, i), ColOf(e, i)), "center")
           \cup If(e.squares => Len(e.vertices) = n /\ \A i \in 1..n : e.vertices[i] = Square(e.g, RowOf(e, i), ColOf(e, i)), "vertex")
           \cup If(e.rows = [i \in 1..n |-> RowOf(e, i) - 1 + e.first], "row")
           \cup If(e.columns = [i \in 1..n |-> ColOf(e, i) - 1 + e.first], "column")
      [] e.op = "scene" ->
           IF e.st # "ok" THEN {"raises"} ELSE
           LET n == Len(e.index) IN
           If(e.rows = [i \in 1..n |-> (e.index[i] \div e.nc) + e.first], "row")
           \cup If(e.columns = [i \in 1..n |-> (e.index[i] % e.nc) + e.first], "column")
           \cup If(e.maps, "maps")
      [] e.op = "rotate" ->
           Res(e, Len(e.obs) = Len(e.pts) /\ \A i \in DOMAIN e.pts : e.obs[i] = Turn(e.pts[i], e.rot))
           \cup (IF e.st = "ok" THEN If(e.kept, "kept") ELSE {})
      [] e.op = "rectangle" ->
           Res(e, Len(e.obs) = Len(e.sizes) /\ \A i \in DOMAIN e.sizes :
                    LET r == Rectangle(e.sizes[i][1], e.sizes[i][2])
                    IN e.obs[i] = [k \in 1..4 |-> <<Turn(r[k], e.rot)[1] + (10 * e.center[1]), Turn(r[k], e.rot)[2] + (10 * e.center[2])>>])
      [] e.op = "regular" ->
           Res(e, Len(e.obs) = Len(e.radii) /\ \A i \in DOMAIN e.radii :
                    Near3(e.obs[i], Regular(e.n, e.radii[i], e.centers[i], e.k0), 8))
      [] e.op = "area" -> Res(e, e.obs = [i \in DOMAIN e.polygons |-> Shoelace(e.polygons[i])])
      [] e.op = "segment" ->
           Res(e, LET s == Segments(e.p, e.m) IN
                  Len(e.obs) = Len(s) /\ \A i \in DOMAIN s :
                     Near2(<<e.obs[i][1] * s[i].n, e.obs[i][2] * s[i].n>>, <<s[i].x[1] * 4096, s[i].x[2] * 4096>>, s[i].n))
      [] e.op = "hull" -> Res(e, IsHull(e.obs, e.pts))
      [] e.op = "refused" -> If(e.st = e.error, e.name)
      [] OTHER -> {"unknown-event"}
TraceInit == h \in 1..Len(Histories) /\ l = 1
TraceNext ==
    /\ l <= Len(Histories[h])
    /\ LET bad == Verdict(Histories[h][l]) IN
       IF bad = {} THEN l' = l + 1
       ELSE /\ l' = Len(Histories[h]) + 1
            /\ PrintT("@@" \o ToJson([h |-> h, l |-> l, bad |-> bad]))
    /\ h' = h
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
