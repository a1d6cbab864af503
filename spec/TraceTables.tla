---------------------------- MODULE TraceTables ----------------------------
(* Validation of recorded histories of packed tables against Tables.  Each      *)
(* event holds the operation, its arguments and, for every live table, the      *)
(* whole observable state after the operation.  The verdict is total: the       *)
(* first failing event of a history is printed with its failing clauses.        *)
EXTENDS Tables, Json, IOUtils

Histories == JsonDeserialize(IOEnv.TRACE)

VARIABLES h, l, tabs      \* tabs: sequence of tables (registers)
vars == <<h, l, tabs>>

Put(ts, i, t) == IF i <= Len(ts) THEN [ts EXCEPT ![i] = t] ELSE Append(ts, t)

ok(e) == e.status = "ok"

(* a failing clause *)
If(c, name) == IF c THEN {} ELSE {name}

(* ---- comparison of a recorded projection p with a table t ---- *)
Missing(t, name) ==
    IF name \in DOMAIN t.par.miss THEN t.par.miss[name] ELSE NAN
AllOK(t, name, rec) ==
    /\ Len(rec) = Size(t)
    /\ \A i \in 1..Size(t) :
         IF \E k \in DOMAIN t.index : t.index[k] = i - 1
         THEN \E k \in DOMAIN t.index : t.index[k] = i - 1 /\ rec[i] = Attr(t, name)[k]
         ELSE \A j \in DOMAIN rec[i] : rec[i][j] = Missing(t, name)

ProjBad(t, p) ==
    (IF p.len # Len(t.index) THEN {"len"} ELSE {})
    \cup (IF p.removed # Removed(t) THEN {"removed"} ELSE {})
    \cup (IF "cst" \in DOMAIN t.par /\ p.cst # t.par.cst THEN {"scalar-attribute"} ELSE {})
    \cup (IF DOMAIN p.attrs # Names(t) \/ DOMAIN p.all # Names(t)
          THEN {"names"}
          ELSE {"attr-" \o a : a \in {b \in Names(t) : p.attrs[b] # Attr(t, b)}}
               \cup {"all-" \o a : a \in {b \in Names(t) : ~AllOK(t, b, p.all[b])}})

(* a distributed table: the unpacked attributes are those of the global table,
   so only the packed ones are compared here *)
LocalBad(t, p) ==
    (IF p.len # Len(t.index) THEN {"len"} ELSE {})
    \cup (IF DOMAIN p.attrs # Names(t) THEN {"names"}
          ELSE {"attr-" \o a : a \in {b \in Names(t) : p.attrs[b] # Attr(t, b)}})
    \cup (IF "cst" \in DOMAIN t.par /\ p.cst # t.par.cst THEN {"scalar-attribute"} ELSE {})
    \cup If(p.types, "attribute-types")

PostBad(ts, post) ==
    UNION {{"t" \o ToString(post[i].r) \o ":" \o c : c \in ProjBad(ts[post[i].r], post[i].p)}
           : i \in DOMAIN post}

(* ---- verdict of one event: the next tables and the failing clauses ---- *)

Verdict(ts, e) ==
    CASE e.op = "create" ->
          LET valid == ValidSel(e.sel, e.shape) /\ Len(e.ord) \in {0, ProdSeq(e.shape)}
          IN IF ~valid THEN [next |-> ts, bad |-> If(~ok(e), "invalid-accepted")]
             ELSE IF ~ok(e) THEN [next |-> ts, bad |-> {"create-raises"}]
             ELSE LET ts1 == Put(ts, e.dst, Create(e.shape, e.sel, e.ord, e.x, e.kind, e.par))
                  IN [next |-> ts1, bad |-> PostBad(ts1, e.post)]
      [] e.op = "dims" ->      \* the attributes have the dimensions which are split, then their own
          LET n == Len(e.shape)
              valid == e.nd >= 1 /\ e.nd <= n /\ Len(e.at) >= e.nd /\ SubSeq(e.at, 1, e.nd) = SubSeq(e.shape, 1, e.nd)
              len == ProdSeq(SubSeq(e.shape, 1, e.nd))
          IN IF ~valid THEN [next |-> ts, bad |-> If(~ok(e), "misshaped-accepted")]
             ELSE IF ~ok(e) THEN [next |-> ts, bad |-> {"create-raises"}]
             ELSE [next |-> ts, bad |-> If(e.len = len, "len")
                                        \cup If(e.obs = <<len>> \o SubSeq(e.at, e.nd + 1, Len(e.at)), "attribute-shape")]
      [] e.op = "sub" ->
          LET t == ts[e.src]
              valid == ValidSel(e.sel, <<Len(t.index)>>)
          IN IF ~valid THEN [next |-> ts, bad |-> If(~ok(e), "invalid-accepted")
                                                  \cup PostBad(ts, e.post)]
             ELSE IF ~ok(e) THEN [next |-> ts, bad |-> {"sub-raises"}]
             ELSE LET ts1 == Put(ts, e.dst, Sub(t, e.sel))
                  IN [next |-> ts1, bad |-> PostBad(ts1, e.post)]
      [] e.op = "copy" ->
          IF ~ok(e) THEN [next |-> ts, bad |-> {"copy-raises"}]
          ELSE LET ts1 == Put(ts, e.dst, ts[e.src])
               IN [next |-> ts1, bad |-> PostBad(ts1, e.post)]
      [] e.op = "split" ->
          LET t == ts[e.src]
          IN IF ~ok(e) THEN [next |-> ts, bad |-> {"split-raises"}]
             ELSE [next |-> ts,
                   bad |-> PostBad(ts, e.post)
                     \cup If(Balanced([i \in DOMAIN e.parts |-> e.parts[i].len],
                                      Len(t.index), e.m), "partition")
                     \cup If(Len(e.parts) = e.m /\
                             \A r \in 1..e.m : ProjBad(Part(t, e.m, r - 1), e.parts[r]) = {},
                             "parts")]
      [] e.op = "set" ->
          LET t == ts[e.src]
              valid == Len(e.y) = Len(t.index)
          IN IF ~valid THEN [next |-> ts, bad |-> If(~ok(e), "invalid-accepted")
                                                  \cup PostBad(ts, e.post)]
             ELSE IF ~ok(e) THEN [next |-> ts, bad |-> {"set-raises"}]
             ELSE LET ts1 == Put(ts, e.src, SetAttr(t, e.name, e.y))
                  IN [next |-> ts1, bad |-> PostBad(ts1, e.post)]
      [] e.op = "fill" ->
          LET t == ts[e.src]
          IN IF ~ok(e) THEN [next |-> ts, bad |-> {"fill-raises"}]
             ELSE LET ts1 == Put(ts, e.src, SetAttr(t, e.name, Const(Len(t.index), e.v)))
                  IN [next |-> ts1, bad |-> PostBad(ts1, e.post)]
      [] e.op = "setall" ->
          LET t == ts[e.src]
              valid == Len(e.x) = Size(t)
          IN IF ~valid THEN [next |-> ts, bad |-> If(~ok(e), "invalid-accepted")
                                                  \cup PostBad(ts, e.post)]
             ELSE IF ~ok(e) THEN [next |-> ts, bad |-> {"setall-raises"}]
             ELSE LET ts1 == Put(ts, e.src, SetAll(t, e.name, e.x))
                  IN [next |-> ts1, bad |-> PostBad(ts1, e.post)]
      [] e.op = "pack" ->
          LET t == ts[e.src]
              valid == Len(e.x) = Size(t) /\ (e.nout = -1 \/ e.nout = Len(t.index))
          IN IF ~valid THEN [next |-> ts, bad |-> If(~ok(e), "invalid-accepted")]
             ELSE IF ~ok(e) THEN [next |-> ts, bad |-> {"pack-raises"}]
             ELSE [next |-> ts,
                   bad |-> If(e.res = Pack(t, e.x), "pack-values")
                      \cup If(e.after = e.x, "pack-input-changed")
                      \cup If(e.sametype, "pack-type")
                      \cup If(e.isout, "pack-out")
                      \cup If(~e.copy \/ ~e.shares, "pack-copy-aliases")
                      \cup PostBad(ts, e.post)]
      [] e.op = "unpack" ->
          LET t == ts[e.src]
              valid == Len(e.y) \in {1, Len(t.index)} /\ (e.nout = -1 \/ e.nout = Size(t))
          IN IF ~valid THEN [next |-> ts, bad |-> If(~ok(e), "invalid-accepted")]
             ELSE IF ~ok(e) THEN [next |-> ts, bad |-> {"unpack-raises"}]
             ELSE [next |-> ts,
                   bad |-> If(~IsInjSeq(t.index) \/ e.res = Unpack(t, e.y, e.missing),
                              "unpack-values")
                      \cup If(e.after = e.y, "unpack-input-changed")
                      \cup If(e.sametype, "unpack-type")
                      \cup If(e.isout, "unpack-out")
                      \cup If(~e.copy \/ ~e.shares, "unpack-copy-aliases")
                      \cup PostBad(ts, e.post)]
      [] e.op = "scatter" ->      \* the local tables of all the processes
          LET t == ts[e.src]
              np == e.nproc
          IN IF ~ok(e) THEN [next |-> ts, bad |-> {"scatter-raises"}]
             ELSE LET locals == [r \in 1..np |-> Part(t, np, r - 1)]
                  IN [next |-> <<t>> \o locals,
                      bad |-> If(Len(e.locals) = np /\
                                 Balanced([r \in 1..np |-> e.locals[r].len],
                                          Len(t.index), np), "partition")
                        \cup (IF Len(e.locals) # np THEN {} ELSE
                              UNION {{"rank" \o ToString(r - 1) \o ":" \o c :
                                      c \in LocalBad(locals[r], e.locals[r])} : r \in 1..np})
                        \cup UNION {{"original:" \o c : c \in ProjBad(t, e.orig[i])} :
                                    i \in DOMAIN e.orig}
                        \cup If(e.comms, "communicator")]
      [] e.op = "localset" ->     \* ts[1] the global table, ts[r + 1] those of rank r - 1
          IF ~ok(e) THEN [next |-> ts, bad |-> {"localset-raises"}]
          ELSE [next |-> [i \in DOMAIN ts |->
                            IF i = 1 THEN ts[1] ELSE SetAttr(ts[i], e.name, e.y[i - 1])],
                bad |-> UNION {{"original:" \o c : c \in ProjBad(ts[1], e.orig[i])} :
                               i \in DOMAIN e.orig}]
      [] e.op = "gather" ->
          LET locals == Tail(ts)
          IN IF ~ok(e) THEN [next |-> ts, bad |-> {"gather-raises"}]
             ELSE [next |-> ts,
                   bad |-> UNION {{"gathered@" \o ToString(r) \o ":" \o c :
                                   c \in LocalBad(Gathered(locals), e.res[r])} : r \in DOMAIN e.res}
                     \cup UNION {{"rank" \o ToString(r - 1) \o "-after:" \o c :
                                   c \in LocalBad(locals[r], e.locals[r])} : r \in DOMAIN locals}
                     \cup If(Len(e.res) = Len(locals), "nproc")]
      [] e.op = "gatherarray" ->
          IF ~ok(e) THEN [next |-> ts, bad |-> {"gatherarray-raises"}]
          ELSE [next |-> ts,
                bad |-> If(\A r \in DOMAIN e.res : e.res[r] = Flatten(e.y), "gathered-array")]
      [] e.op = "dunpack" ->      \* unpack of a distributed table
          LET g == Gathered(Tail(ts))
          IN IF ~ok(e) THEN [next |-> ts, bad |-> {"dunpack-raises"}]
             ELSE [next |-> ts,
                   bad |-> If(\A r \in DOMAIN e.res :
                                 e.res[r] = Unpack(g, Flatten(e.y), e.missing),
                              "distributed-unpack")]

TraceInit == h \in 1..Len(Histories) /\ l = 1 /\ tabs = <<>>

TraceNext ==
    /\ l <= Len(Histories[h])
    /\ LET v == Verdict(tabs, Histories[h][l]) IN
       /\ tabs' = v.next
       /\ IF v.bad = {} THEN l' = l + 1
          ELSE /\ l' = Len(Histories[h]) + 1
               /\ PrintT("@@" \o ToJson([h |-> h, l |-> l, bad |-> v.bad]))
    /\ h' = h

TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
