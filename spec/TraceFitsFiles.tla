--------------------------- MODULE TraceFitsFiles ---------------------------
(* Validation of recorded histories of arrays and files.                        *)
EXTENDS FitsFiles, Json, IOUtils
Histories == JsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, rs, fs      \* fs: the files, <<>> or <<content>>
vars == <<h, l, rs, fs>>

If(c, name) == IF c THEN {} ELSE {name}
Put(s, i, m) == IF i <= Len(s) THEN [s EXCEPT ![i] = m] ELSE Append(s, m)
NoMask(c) == c = <<>> \/ (Len(c) = 1 /\ \A i \in DOMAIN c[1] : c[1][i] = 0)
SameMask(a, b) == a = b \/ (NoMask(a) /\ NoMask(b))
RegBad(r, p) ==
    If(p.cls = r.cls, "class") \cup If(p.shape = r.shape, "shape") \cup If(p.v = r.v, "values")
    \cup If(p.cov = r.cov, "coverage") \cup If(p.err = r.err, "error")
    \cup If(SameMask(r.mask, p.mask), "mask")
    \cup If(p.hdr = r.hdr, "header") \cup If(p.unit = r.unit, "unit")
    \cup If(p.org = r.org \/ (r.org = "?" /\ p.org \in {"lower", "upper"}), "origin")
    \cup If(p.du = r.du, "derived-units") \cup If(p.dt = r.dt, "dtype")
    \cup If(p.crpix = r.crpix, "reference-pixel")
PostBad(s, post) ==
    IF Len(post) # Len(s) THEN {"registers"}
    ELSE UNION {RegBad(s[i], post[i]) : i \in DOMAIN s}
RawBad(f, p) ==
    If(p.shape = f.shape, "file-shape") \cup If(p.v = f.v, "file-values") \cup If(p.dt = f.dt, "file-dtype")
    \cup If(p.unit = f.unit, "file-unit") \cup If(p.hdr = f.hdr, "file-header")
    \cup If(f.org = "?" \/ p.org = f.org, "file-origin") \cup If(p.cov = f.cov, "file-coverage")
    \cup If(p.err = f.err, "file-error") \cup If(SameMask(p.mask, f.mask), "file-mask")
    \cup If(p.du = f.du, "file-derived-units") \cup If(p.crpix = f.crpix, "file-reference-pixel")
FilesBad(fs2, files) ==
    IF Len(files) # Len(fs2) THEN {"files"}
    ELSE UNION {IF fs2[i] = <<>> THEN If(files[i] = <<>>, "unexpected-file")
                ELSE IF files[i] = <<>> THEN {"no-file"} ELSE RawBad(fs2[i][1], files[i][1]) : i \in DOMAIN fs2}
(* an unknown origin is resolved by the observation *)
Resolve(s, post) == [i \in DOMAIN s |-> IF s[i].org = "?" THEN [s[i] EXCEPT !.org = post[i].org] ELSE s[i]]
Ok(e, s1, f1) ==
    IF e.status # "ok" THEN [s |-> rs, f |-> fs, bad |-> {e.op \o "-raises"}]
    ELSE LET b == PostBad(s1, e.post) \cup FilesBad(f1, e.files) IN
         [s |-> IF b = {} THEN Resolve(s1, e.post) ELSE s1, f |-> f1, bad |-> b]
Refuse(e, name) ==
    [s |-> rs, f |-> fs, bad |-> If(e.status \in name, "not-refused") \cup PostBad(rs, e.post)
                                 \cup FilesBad(fs, e.files)]
PartsBad(f, e) ==
    IF Len(e.parts) # e.size THEN {"number-of-parts"}
    ELSE UNION {LET x == LoadPart(f, e.cls, e.g, e.size, i - 1)
                    p == e.parts[i]
                IN RegBad(x, p.o) \cup If(p.naxis = x.shape, "header-axes") : i \in DOMAIN e.parts}

Verdict(e) ==
    CASE e.op = "create" -> Ok(e, Put(rs, e.dst, e.r), fs)
      [] e.op = "save" -> Ok(e, rs, [fs EXCEPT ![e.path] = <<FileOf(rs[e.a])>>])
      [] e.op = "load" ->
           IF fs[e.path] = <<>> THEN Refuse(e, {"exc:FileNotFoundError", "exc:OSError"})
           ELSE LET o == Ok(e, Put(rs, e.dst, LoadFile(fs[e.path][1], e.cls, e.g)), fs) IN
                [o EXCEPT !.bad = IF e.status = "ok" THEN @ \cup If(e.naxis = fs[e.path][1].shape, "header-axes")
                                  ELSE @]
      [] e.op = "parts" ->        \* read by e.size processes
           IF e.status # "ok" THEN [s |-> rs, f |-> fs, bad |-> {"parts-raises"}]
           ELSE [s |-> rs, f |-> fs, bad |-> PartsBad(fs[e.path][1], e) \cup PostBad(rs, e.post)
                                             \cup FilesBad(fs, e.files)]
      [] e.op = "collect" ->      \* written by several processes
           IF ~WellSplit(e.locals) THEN
                (* every process refuses *)
                [s |-> rs, f |-> fs, bad |-> If(\A i \in DOMAIN e.sts : e.sts[i] = "exc:ValueError", "not-refused")]
           ELSE IF e.status # "ok" THEN [s |-> rs, f |-> fs, bad |-> {"collect-raises"}]
           ELSE LET f1 == [fs EXCEPT ![e.path] = <<Gather(e.locals)>>] IN
                [s |-> rs, f |-> f1, bad |-> FilesBad(f1, e.files)]
      [] e.op = "select" -> Ok(e, Put(rs, e.dst, Picked(rs[e.a], e.idx, e.shape)), fs)
      [] e.op = "unit" -> Ok(e, [rs EXCEPT ![e.a].unit = e.unit], fs)
      [] e.op = "strip" -> Ok(e, [rs EXCEPT ![e.a].cov = <<>>, ![e.a].err = <<>>, ![e.a].mask = <<>>], fs)
      [] e.op = "write" -> Ok(e, [rs EXCEPT ![e.a].v[e.pos] = e.value], fs)
      [] e.op = "mpi" -> [s |-> rs, f |-> fs, bad |-> {"deadlock"}]
      [] OTHER -> [s |-> rs, f |-> fs, bad |-> {"unknown-event"}]

TraceInit == h \in 1..Len(Histories) /\ l = 1 /\ rs = <<>> /\ fs = << <<>>, <<>> >>
TraceNext ==
    /\ l <= Len(Histories[h])
    /\ LET e == Histories[h][l]
           v == Verdict(e) IN
       /\ rs' = v.s /\ fs' = v.f
       /\ IF v.bad = {} THEN l' = l + 1
          ELSE /\ l' = Len(Histories[h]) + 1
               /\ PrintT("@@" \o ToJson([h |-> h, l |-> l, bad |-> v.bad]))
    /\ h' = h
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
